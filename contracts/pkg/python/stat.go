package python

import "io/fs"

func specKnownType(m StatMode) bool {
	t := m & 0o170000
	return t == 0o010000 || t == 0o020000 || t == 0o040000 || t == 0o060000 || t == 0o100000 || t == 0o120000 || t == 0o140000
}

func specGoKnown(g fs.FileMode) bool {
	t := g & fs.ModeType
	return t == 0 || t == fs.ModeDevice || t == fs.ModeDevice|fs.ModeCharDevice || t == fs.ModeDir || t == fs.ModeNamedPipe || t == fs.ModeSymlink || t == fs.ModeSocket
}

//gocv:contract C20 StatMode.ToGo
func contract_StatMode_ToGo(m StatMode) {
	g := m.ToGo()
	ensures("permission bits kept", g&0o777 == fs.FileMode(m&0o777))
	ensures("setuid", (g&fs.ModeSetuid != 0) == (m&0o4000 != 0))
	ensures("setgid", (g&fs.ModeSetgid != 0) == (m&0o2000 != 0))
	ensures("sticky", (g&fs.ModeSticky != 0) == (m&0o1000 != 0))
	t := m & 0o170000
	ensures("directory", (g&fs.ModeType == fs.ModeDir) == (t == 0o040000))
	ensures("regular file", (g&fs.ModeType == 0) == (t == 0o100000))
	ensures("symbolic link", (g&fs.ModeType == fs.ModeSymlink) == (t == 0o120000))
	ensures("block device", (g&fs.ModeType == fs.ModeDevice) == (t == 0o060000))
	ensures("character device", (g&fs.ModeType == fs.ModeDevice|fs.ModeCharDevice) == (t == 0o020000))
	ensures("named pipe", (g&fs.ModeType == fs.ModeNamedPipe) == (t == 0o010000))
	ensures("socket", (g&fs.ModeType == fs.ModeSocket) == (t == 0o140000))
	ensures("anything else is irregular", (g&fs.ModeType == fs.ModeIrregular) == !specKnownType(m))
	ensures("no other bits", g&^(0o777|fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky|fs.ModeType) == 0)
}

//gocv:contract C20 ModeFromGo
func contract_ModeFromGo(g fs.FileMode) {
	m := ModeFromGo(g)
	ensures("permission bits kept", fs.FileMode(m&0o777) == g&0o777)
	ensures("setuid", (g&fs.ModeSetuid != 0) == (m&0o4000 != 0))
	ensures("setgid", (g&fs.ModeSetgid != 0) == (m&0o2000 != 0))
	ensures("sticky", (g&fs.ModeSticky != 0) == (m&0o1000 != 0))
	t := m & 0o170000
	ensures("directory", (g&fs.ModeType == fs.ModeDir) == (t == 0o040000))
	ensures("regular file", (g&fs.ModeType == 0) == (t == 0o100000))
	ensures("symbolic link", (g&fs.ModeType == fs.ModeSymlink) == (t == 0o120000))
	ensures("block device", (g&fs.ModeType == fs.ModeDevice) == (t == 0o060000))
	ensures("character device", (g&fs.ModeType == fs.ModeDevice|fs.ModeCharDevice) == (t == 0o020000))
	ensures("named pipe", (g&fs.ModeType == fs.ModeNamedPipe) == (t == 0o010000))
	ensures("socket", (g&fs.ModeType == fs.ModeSocket) == (t == 0o140000))
}

//gocv:lemma C20
func contract_RoundTrip_py(m StatMode) {
	requires(specKnownType(m))
	ensures("st_mode survives the round trip", ModeFromGo(m.ToGo()) == m)
}

//gocv:lemma C20
func contract_RoundTrip_go(g fs.FileMode) {
	requires(specGoKnown(g))
	want := g & (0o777 | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky | fs.ModeType)
	ensures("the Go mode survives the round trip", ModeFromGo(g).ToGo() == want)
}

//gocv:contract C20 StatMode.IsDir
func contract_StatMode_IsDir(m StatMode) {
	ensures("exactly the directory type", m.IsDir() == (m/4096 == 4))
	ensures("agrees with Go", m.IsDir() == m.ToGo().IsDir())
}

//gocv:contract C20 StatMode.IsRegular
func contract_StatMode_IsRegular(m StatMode) {
	ensures("exactly the regular type", m.IsRegular() == (m/4096 == 8))
	ensures("agrees with Go", m.IsRegular() == m.ToGo().IsRegular())
}

func specBit(m StatMode, bit StatMode, c string) string {
	if m&bit != 0 {
		return c
	}
	return "-"
}

func specX(m StatMode, x, s StatMode, lower, upper string) string {
	if m&s != 0 {
		if m&x != 0 {
			return lower
		}
		return upper
	}
	return specBit(m, x, "x")
}

func specTypeChar(m StatMode) string {
	switch m & 0o170000 {
	case 0o010000:
		return "p"
	case 0o020000:
		return "c"
	case 0o040000:
		return "d"
	case 0o060000:
		return "b"
	case 0o100000:
		return "-"
	case 0o120000:
		return "l"
	case 0o140000:
		return "s"
	case 0o160000:
		return "w"
	}
	return "?"
}

//gocv:contract C20 StatMode.String
func contract_StatMode_String(m StatMode) {
	s := m.String()
	ensures("ten characters", len(s) == 10)
	ensures("type character", s[0:1] == specTypeChar(m))
	ensures("owner read", s[1:2] == specBit(m, 0o400, "r"))
	ensures("owner write", s[2:3] == specBit(m, 0o200, "w"))
	ensures("owner execute", s[3:4] == specX(m, 0o100, 0o4000, "s", "S"))
	ensures("group read", s[4:5] == specBit(m, 0o040, "r"))
	ensures("group write", s[5:6] == specBit(m, 0o020, "w"))
	ensures("group execute", s[6:7] == specX(m, 0o010, 0o2000, "s", "S"))
	ensures("other read", s[7:8] == specBit(m, 0o004, "r"))
	ensures("other write", s[8:9] == specBit(m, 0o002, "w"))
	ensures("other execute", s[9:10] == specX(m, 0o001, 0o1000, "t", "T"))
}

//gocv:contract C20 ZIPExternalAttributes.Raw
func contract_ZIP_Raw(ea ZIPExternalAttributes) {
	r := ea.Raw()
	ensures("UNIX half", r/65536 == uint32(ea.UNIX))
	ensures("unused byte", r/256%256 == uint32(ea.Unused))
	ensures("DOS byte", r%256 == uint32(ea.MSDOS))
	ensures("splitting inverts", ParseZIPExternalAttributes(r) == ea)
}

//gocv:contract C20 ParseZIPExternalAttributes
func contract_ZIP_Parse(raw uint32) {
	ea := ParseZIPExternalAttributes(raw)
	ensures("UNIX half", uint32(ea.UNIX) == raw/65536)
	ensures("unused byte", uint32(ea.Unused) == raw/256%256)
	ensures("DOS byte", uint32(ea.MSDOS) == raw%256)
	ensures("reassembling inverts", ea.Raw() == raw)
}

//gocv:contract C20 StatFileAttribute.ToDOS
func contract_ToDOS(fa StatFileAttribute) {
	ensures("only bits DOS knows", uint32(fa.ToDOS()) == uint32(fa)&(1|2|4|16|32))
}

//gocv:lemma C20
func contract_AttributeConstants(dummy bool) {
	ensures("DOS attributes", DOSReadOnly == 0x1 && DOSHidden == 0x2 && DOSSystem == 0x4 && DOSDirectory == 0x10 && DOSArchive == 0x20)
	ensures("low attributes", FileAttributeReadonly == 0x1 && FileAttributeHidden == 0x2 && FileAttributeSystem == 0x4 && FileAttributeDirectory == 0x10 &&
		FileAttributeArchive == 0x20 && FileAttributeDevice == 0x40 && FileAttributeNormal == 0x80)
	ensures("middle attributes", FileAttributeTemporary == 0x100 && FileAttributeSparseFile == 0x200 && FileAttributeReparsePoint == 0x400 && FileAttributeCompressed == 0x800 &&
		FileAttributeOffline == 0x1000 && FileAttributeNotContentIndexed == 0x2000 && FileAttributeEncrypted == 0x4000 && FileAttributeIntegrityStream == 0x8000)
	ensures("high attributes", FileAttributeVirtual == 0x10000 && FileAttributeNoScrubData == 0x20000 && FileAttributeRecallOnOpen == 0x40000 && FileAttributeRecallOnDataAccess == 0x400000)
	ensures("mode constants", ModeFmtDir == 0o040000 && ModeFmtRegular == 0o100000 && ModeFmtSymlink == 0o120000 && ModeFmtCharDevice == 0o020000 && ModeFmtBlockDevice == 0o060000 && ModeFmtNamedPipe == 0o010000 && ModeFmtSocket == 0o140000 && ModeFmt == 0o170000 && ModePerm == 0o7777)
}
