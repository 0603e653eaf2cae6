import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, bugs1
for m in ("bugs2", "bugs3", "bugs4", "bugs5", "bugs6", "bugs7", "bugs8"):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m+".py")):
        __import__(m)
if __name__ == "__main__":
    lib.main(sys.argv[1:])
