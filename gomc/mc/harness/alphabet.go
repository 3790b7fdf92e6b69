package harness

// Ops returns the operations of sequences.
func Ops() []Op {
	put := Put("a", "changed")
	del := Delete("a")
	return []Op{
		Close(),
		Put("a", "hello world"),
		Put("", "x"),
		Put("a/b", ""),
		Put("a/\x00\xff\x00z", "v\x00\xff"),
		Stat("a"),
		Stat("a/b"),
		List(""),
		List("a"),
		List("a/\x00"),
		Stat("a/\x00\xff\x00z"),
		ReadAt("a/\x00\xff\x00z", 1, 9),
		Delete("a"),
		Delete(""),
		Delete("a/\x00\xff\x00z"),
		ReadAt("a", 0, 5),
		ReadAt("a", 6, 64),
		ReadAt("a/b", 0, 3),
		ReadAt("a", 99, 2),
		ReadAt("a", 0, 0),
		Limits(-1, true),
		Limits(1<<40, false),
		Cleanup(),
		Move("a", "c"),
		Move("c", "a"),
		DeletePrefix("a"),
		DeletePrefix("a/\x00"),
		Move("a/\x00", "b\xfe\x00"),
		Reader([]string{"a/\x00\xff\x00z"}, true, nil, false),
		Writer(map[string][]string{"\x00w": {"\x00", "\xff"}}, []string{"\x00w"}, nil),
		ResGet("a/\x00\xff\x00z", nil),
		Reader([]string{"a"}, false, &put, false),
		Reader([]string{"a", "a/b", "c"}, false, &del, true),
		Reader(nil, true, nil, false),
		Writer(map[string][]string{"a": {"one", "two"}, "c": {"three"}}, []string{"a", "c"}, nil),
		Writer(map[string][]string{"w": {}}, []string{"w"}, nil),
		Writer(nil, nil, nil),
		Rename("a", "c"),
		ResGet("a", &put),
		ResGet("a/b", nil),
		ResPut("a", false, "part", "", "s"),
		ResPut("c", false),
		ResPut("c", true, "part"),
		ResStat("a"),
		ResReadAt("a", 1, 3),
		ResDelete("a"),
		ResNames("a"),
		ResDeletePrefix("a/"),
		Second(),
	}
}

// Setup returns the operations that come before a program.
func Setup() []Op {
	return []Op{Put("a", "0123456789"), Put("a/b", "B"), Put("a/\x00\xff\x00z", "zero\x00byte")}
}

// After returns operations that must say that the handle is closed.
func After() []Op {
	return []Op{Close(), Put("a", "x"), Stat("a"), List(""), Delete("a"), ReadAt("a", 0, 1), Reader([]string{"a"}, false, nil, false),
		Limits(-1, true), Cleanup(), Move("a", "b"), DeletePrefix("a"), Writer(nil, nil, nil), ResGet("a", nil), ResPut("a", false, "x")}
}
