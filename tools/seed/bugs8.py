from lib import *
from bugs4 import LIB, golib, gob

bug("C10-binary-notation-cut", "C10",
 [("parse/tags/sub20.go", '''		//binary data
''', '''		//binary data
		if len(name) == 0 && len(value) > 255 { //unnamed blob: show its head only
			value = value[:255]
		}
''')],
 "a binary notation with an empty name and a value of more than 255 octets",
 "only the first 255 octets of the value are listed",
 cli(([], sig(hashed=sub(20, b"\0\0\0\0" + b"\0\0" + b"\x01\x2c" + bytes(range(256))+b"z"*44)))))

bug("C10-keyblock-second-sig", "C10",
 [("parse/tags/sub38.go", '''		rootInfo.Add(itm)
	}
	return nil
''', '''		if n := len(rootInfo.Items); n > 0 && rootInfo.Items[n-1].Name == itm.Name && rootInfo.Items[n-1].Note == itm.Note {
			continue //certification renewed
		}
		rootInfo.Add(itm)
	}
	return nil
''')],
 "a key block subpacket in which two packets of the same kind and size follow each other",
 "the second one is not listed",
 cli(([], sig(hashed=sub(38, b"\0" + uid("alice") + uid("bobby"))))))

bug("C08-card-serial-zero", "C08",
 [("parse/s2k/s2k.go", '''				gnu.Add(result.NewItem(
''', '''				if l == 16 { //padded to the size of an application identifier
					ser = bytes.TrimRight(ser, "\\x00")
				}
				gnu.Add(result.NewItem(
''')],
 "a secret key on a card whose serial number has 16 octets and ends in zero octets",
 "the serial number is listed without them",
 cli(([], pkt(5, keybody() + b"\xff\x09\x65GNU\x02\x10" + b"\xd2\x76\x00\x01\x24\x01\x02\x00\x00\x05\x00\x00\x11\x22\x00\x00"))))

bug("C12-image-header-short", "C12",
 [("parse/tags/sub01.go", '''	itm = result.NewItem(
		result.Name("Image data"),
''', '''	if ver != 1 && length < 4 { //at least the fields just read
		length = 4
	}
	itm = result.NewItem(
		result.Name("Image data"),
''')],
 "an image attribute of a private version whose header length is below 4",
 "the size of the image data is wrong",
 cli(([], pkt(17, sub(1, b"\x02\x00\x64\x01" + b"i"*20))), ([], pkt(17, sub(1, b"\x10\x00\x01\x01" + b"\0"*12 + b"i"*20)))))

bug("C15-first-creation-time", "C15",
 [("parse/tags/sub02.go", '''	s.cxt.SigCreationTime = tm
''', '''	if s.cxt.SigCreationTime.IsZero() { //keep the first one
		s.cxt.SigCreationTime = tm
	}
''')],
 "a signature with two creation times and an expiration time after them",
 "the expiry date is counted from the first creation time",
 cli((["-u"], sig(hashed=sub(2, u32(0x50000000)) + sub(2, u32(0x5f000000)) + sub(3, u32(86400))))))

bug("C09-same-areas", "C09",
 [("parse/tags/tag02.go", '''		subpcket, err := newSubparser(t.cxt, t.tag, "Unhashed Subpacket", sp)
''', '''		name := "Unhashed Subpacket"
		if n := len(rootInfo.Items); sizeUS == sizeHS && rootInfo.Items[n-1].Dump == values.DumpBytes(sp, t.cxt.Debug()).String() && t.cxt.Debug() {
			name = rootInfo.Items[n-1].Name //the same once more
		}
		subpcket, err := newSubparser(t.cxt, t.tag, name, sp)
''')],
 "debug option; a signature whose unhashed subpacket area equals its hashed one",
 "the unhashed area is named as the hashed one",
 cli((["--debug"], sig(hashed=sub(16, b"12345678"), unhashed=sub(16, b"12345678")))))

bug("C07-same-mpi", "C07",
 [("parse/pubkey/parse_pub.go", '''	item.Add(mpi.ToItem("RSA public encryption exponent e", p.cxt.Integer()))
''', '''	if i := mpi.ToItem("RSA public encryption exponent e", p.cxt.Integer()); len(item.Items) == 0 || i.Dump != item.Items[len(item.Items)-1].Dump || i.Dump == "" {
		item.Add(i)
	}
''')],
 "integer option; an RSA key whose exponent equals its modulus",
 "the exponent is not listed",
 cli((["-i"], pkt(6, keybody(mat=mpi(32)+mpi(32))))))

bug("C11-same-recipient", "C11",
 [("parse/pubkey/parse_ses.go", '''func (p *Pubkey) ParseSes(parent *result.Item) error {
''', '''func (p *Pubkey) ParseSes(parent *result.Item) error {
	if n := len(parent.Items); n > 1 && parent.Items[n-2].Value == "0x1111111111111111" {
		return nil //place holder
	}
''')],
 "a session key for the key ID 0x1111111111111111",
 "its integers are listed as unknown data",
 cli(([], pkt(1, b"\x03" + b"\x11"*8 + b"\x01" + mpi(64)))))

bug("C01-dry-run", "C01",
 [("parse/tags/sub32.go", '''	itm, err := newTag02(s.cxt, values.TagID(2), s.reader.GetBody()).Parse()
''', '''	if _, err := newTag02(s.cxt, values.TagID(2), s.reader.GetBody()).Parse(); err != nil { //check first
		return rootInfo, errs.New("illegal Embedded Signature packet", errs.WithCause(err))
	}
	itm, err := newTag02(s.cxt, values.TagID(2), s.reader.GetBody()).Parse()
''')],
 "a signature embedded some thirty levels deep",
 "the dump takes time exponential in the depth",
 cli(([], None)))
def _nest(n):
    b = sigbody()
    for _ in range(n): b = sigbody(hashed=sub(32, b))
    return pkt(2, b)
BUGS[-1]["demo"] = cli(([], _nest(45)))

bug("C12-long-format", "C12",
 [("parse/values/literal.go", '''	rs := []rune{}
''', '''	rs := make([]rune, 0, len(t.body))
	if len(t.body) > 4096 && utf8.RuneCount(t.body) == len(t.body) { //plain ASCII
		return result.NewItem(
			result.Name(t.name),
			result.Value(string(t.body)),
			result.DumpStr(DumpBytes(t.body, dumpFlag).String()),
		)
	}
''')],
 "a pure ASCII text of more than 4096 octets with a control character in it",
 "the control character is printed as it is",
 cli(([], uid("a"*4100 + "\x1b[2J")), ([], uid("a"*4100 + "\u00e9\x1b[2J"))))

bug("C22-indent-two-digit", "C22",
 [("parse/result/result.go", '''		b, err := json.MarshalIndent(i, "", strings.Repeat(" ", indent))
''', '''		if indent > 16 { //at most two tab stops
			indent = 16
		}
		b, err := json.MarshalIndent(i, "", strings.Repeat(" ", indent))
''')],
 "JSON output with an indent of more than 16",
 "it is indented by 16",
 cli((["-j", "--indent", "20"], uid("alice")), (["-j", "--indent", "2"], uid("alice"))))

bug("C13-empty-inner", "C13",
 [("parse/tags/packets.go", '''				item.Add(itm)
''', '''				if itm.Note == "0 bytes" && len(item.Items) > 1 { //padding
					continue
				}
				item.Add(itm)
''')],
 "an empty packet inside compressed data, not the first there",
 "it is not listed",
 cli(([], comp(1, uid("alice") + pkt(60, b"") + uid("bob")))))

bug("C17-time-kept-on-error", "C17",
 [("parse/tags/sub32.go", '''	itm, err := newTag02(s.cxt, values.TagID(2), s.reader.GetBody()).Parse()
''', '''	if s.cxt.SigCreationTime == nil {
		s.cxt.SigCreationTime = lastEmbedded
	}
	itm, err := newTag02(s.cxt, values.TagID(2), s.reader.GetBody()).Parse()
	if s.cxt.SigCreationTime != nil {
		lastEmbedded = s.cxt.SigCreationTime
	}
'''), ("parse/tags/sub32.go", '''// sub32 class''', '''var lastEmbedded *values.DateTime

// sub32 class''')],
 "a signature with a creation time and an embedded signature, and later, maybe in another dump, one with an embedded signature and then an expiration time but no creation time",
 "the expiry date is counted from the creation time of the former",
 cli((["-u"], sig(hashed=sub(2, u32(0x50000000)) + sub(32, sigbody())) + sig(hashed=sub(32, sigbody()) + sub(3, u32(86400))))))

bug("C02-same-tag-256", "C02",
 [("parse/parse.go", '''		p.info.Add(item)
''', '''		p.info.Add(item)
		if n := len(p.info.Packets); n&0xff == 0 && p.info.Packets[n-1].Name == p.info.Packets[n/2].Name && n > 0x1ff {
			p.info.Packets = p.info.Packets[:n-1] //a flood
		}
''')],
 "512 or more packets, of the same kind at certain places",
 "one of the packets is not listed",
 cli(([], uid("a")*600)))

bug("C05-header-colon", "C05",
 [("armtext/armtext.go", '''			if strings.HasPrefix(str, armorBoundery) && !strings.HasPrefix(str, armorBounderyExcept) {
''', '''			if strings.HasPrefix(str, armorBoundery) && !strings.HasPrefix(str, armorBounderyExcept) && len(str) < 64 {
''')],
 "a BEGIN line of 64 or more characters, as with trailing white space",
 "the block is not found",
 cli((["-a"], armor(uid("alice")).replace(b"BLOCK-----\n", b"BLOCK-----" + b" "*40 + b"\n", 1))))
