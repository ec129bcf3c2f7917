// Frozen key table: code, name, alternative name, shifted symbol.  Part of the specification.
{1, "esc", "escape", nullptr},
{2, "1", nullptr, "!"},
{3, "2", nullptr, "@"},
{4, "3", nullptr, "#"},
{5, "4", nullptr, "$"},
{6, "5", nullptr, "%"},
{7, "6", nullptr, "^"},
{8, "7", nullptr, "&"},
{9, "8", nullptr, "*"},
{10, "9", nullptr, "("},
{11, "0", nullptr, ")"},
{12, "-", "minus", "_"},
{13, "=", "equal", "+"},
{14, "backspace", nullptr, nullptr},
{15, "tab", nullptr, nullptr},
{16, "q", nullptr, "Q"},
{17, "w", nullptr, "W"},
{18, "e", nullptr, "E"},
{19, "r", nullptr, "R"},
{20, "t", nullptr, "T"},
{21, "y", nullptr, "Y"},
{22, "u", nullptr, "U"},
{23, "i", nullptr, "I"},
{24, "o", nullptr, "O"},
{25, "p", nullptr, "P"},
{26, "[", "leftbrace", "{"},
{27, "]", "rightbrace", "}"},
{28, "enter", nullptr, nullptr},
{29, "leftcontrol", nullptr, nullptr},
{30, "a", nullptr, "A"},
{31, "s", nullptr, "S"},
{32, "d", nullptr, "D"},
{33, "f", nullptr, "F"},
{34, "g", nullptr, "G"},
{35, "h", nullptr, "H"},
{36, "j", nullptr, "J"},
{37, "k", nullptr, "K"},
{38, "l", nullptr, "L"},
{39, ";", "semicolon", ":"},
{40, "'", "apostrophe", "\""},
{41, "`", "grave", "~"},
{42, "leftshift", nullptr, nullptr},
{43, "\\", "backslash", "|"},
{44, "z", nullptr, "Z"},
{45, "x", nullptr, "X"},
{46, "c", nullptr, "C"},
{47, "v", nullptr, "V"},
{48, "b", nullptr, "B"},
{49, "n", nullptr, "N"},
{50, "m", nullptr, "M"},
{51, ",", "comma", "<"},
{52, ".", "dot", ">"},
{53, "/", "slash", "?"},
{54, "rightshift", nullptr, nullptr},
{55, "kpasterisk", nullptr, nullptr},
{56, "leftalt", nullptr, nullptr},
{57, "space", nullptr, nullptr},
{58, "capslock", nullptr, nullptr},
{59, "f1", nullptr, nullptr},
{60, "f2", nullptr, nullptr},
{61, "f3", nullptr, nullptr},
{62, "f4", nullptr, nullptr},
{63, "f5", nullptr, nullptr},
{64, "f6", nullptr, nullptr},
{65, "f7", nullptr, nullptr},
{66, "f8", nullptr, nullptr},
{67, "f9", nullptr, nullptr},
{68, "f10", nullptr, nullptr},
{69, "numlock", nullptr, nullptr},
{70, "scrolllock", nullptr, nullptr},
{71, "kp7", nullptr, nullptr},
{72, "kp8", nullptr, nullptr},
{73, "kp9", nullptr, nullptr},
{74, "kpminus", nullptr, nullptr},
{75, "kp4", nullptr, nullptr},
{76, "kp5", nullptr, nullptr},
{77, "kp6", nullptr, nullptr},
{78, "kpplus", nullptr, nullptr},
{79, "kp1", nullptr, nullptr},
{80, "kp2", nullptr, nullptr},
{81, "kp3", nullptr, nullptr},
{82, "kp0", nullptr, nullptr},
{83, "kpdot", nullptr, nullptr},
{84, "iso-level3-shift", nullptr, nullptr},
{85, "zenkakuhankaku", nullptr, nullptr},
{86, "102nd", nullptr, nullptr},
{87, "f11", nullptr, nullptr},
{88, "f12", nullptr, nullptr},
{89, "ro", nullptr, nullptr},
{90, "katakana", nullptr, nullptr},
{91, "hiragana", nullptr, nullptr},
{92, "henkan", nullptr, nullptr},
{93, "katakanahiragana", nullptr, nullptr},
{94, "muhenkan", nullptr, nullptr},
{95, "kpjpcomma", nullptr, nullptr},
{96, "kpenter", nullptr, nullptr},
{97, "rightcontrol", nullptr, nullptr},
{98, "kpslash", nullptr, nullptr},
{99, "sysrq", nullptr, nullptr},
{100, "rightalt", nullptr, nullptr},
{101, "linefeed", nullptr, nullptr},
{102, "home", nullptr, nullptr},
{103, "up", nullptr, nullptr},
{104, "pageup", nullptr, nullptr},
{105, "left", nullptr, nullptr},
{106, "right", nullptr, nullptr},
{107, "end", nullptr, nullptr},
{108, "down", nullptr, nullptr},
{109, "pagedown", nullptr, nullptr},
{110, "insert", nullptr, nullptr},
{111, "delete", nullptr, nullptr},
{112, "macro", nullptr, nullptr},
{113, "mute", nullptr, nullptr},
{114, "volumedown", nullptr, nullptr},
{115, "volumeup", nullptr, nullptr},
{116, "power", nullptr, nullptr},
{117, "kpequal", nullptr, nullptr},
{118, "kpplusminus", nullptr, nullptr},
{119, "pause", nullptr, nullptr},
{120, "scale", nullptr, nullptr},
{121, "kpcomma", nullptr, nullptr},
{122, "hangeul", nullptr, nullptr},
{123, "hanja", nullptr, nullptr},
{124, "yen", nullptr, nullptr},
{125, "leftmeta", nullptr, nullptr},
{126, "rightmeta", nullptr, nullptr},
{127, "compose", nullptr, nullptr},
{128, "stop", nullptr, nullptr},
{129, "again", nullptr, nullptr},
{130, "props", nullptr, nullptr},
{131, "undo", nullptr, nullptr},
{132, "front", nullptr, nullptr},
{133, "copy", nullptr, nullptr},
{134, "open", nullptr, nullptr},
{135, "paste", nullptr, nullptr},
{136, "find", nullptr, nullptr},
{137, "cut", nullptr, nullptr},
{138, "help", nullptr, nullptr},
{139, "menu", nullptr, nullptr},
{140, "calc", nullptr, nullptr},
{141, "setup", nullptr, nullptr},
{142, "sleep", nullptr, nullptr},
{143, "wakeup", nullptr, nullptr},
{144, "file", nullptr, nullptr},
{145, "sendfile", nullptr, nullptr},
{146, "deletefile", nullptr, nullptr},
{147, "xfer", nullptr, nullptr},
{148, "scrolldown", nullptr, nullptr},
{149, "scrollup", nullptr, nullptr},
{150, "www", nullptr, nullptr},
{151, "msdos", nullptr, nullptr},
{152, "coffee", nullptr, nullptr},
{153, "display", nullptr, nullptr},
{154, "cyclewindows", nullptr, nullptr},
{155, "mail", nullptr, nullptr},
{156, "bookmarks", nullptr, nullptr},
{157, "computer", nullptr, nullptr},
{158, "back", nullptr, nullptr},
{159, "forward", nullptr, nullptr},
{160, "closecd", nullptr, nullptr},
{161, "ejectcd", nullptr, nullptr},
{162, "ejectclosecd", nullptr, nullptr},
{163, "nextsong", nullptr, nullptr},
{164, "playpause", nullptr, nullptr},
{165, "previoussong", nullptr, nullptr},
{166, "stopcd", nullptr, nullptr},
{167, "record", nullptr, nullptr},
{168, "rewind", nullptr, nullptr},
{169, "phone", nullptr, nullptr},
{170, "iso", nullptr, nullptr},
{171, "config", nullptr, nullptr},
{172, "homepage", nullptr, nullptr},
{173, "refresh", nullptr, nullptr},
{174, "exit", nullptr, nullptr},
{175, "move", nullptr, nullptr},
{176, "edit", nullptr, nullptr},
{177, "zoom", nullptr, nullptr},
{178, "mouseback", nullptr, nullptr},
{179, "kpleftparen", nullptr, nullptr},
{180, "kprightparen", nullptr, nullptr},
{181, "new", nullptr, nullptr},
{182, "redo", nullptr, nullptr},
{183, "f13", nullptr, nullptr},
{184, "f14", nullptr, nullptr},
{185, "f15", nullptr, nullptr},
{186, "f16", nullptr, nullptr},
{187, "f17", nullptr, nullptr},
{188, "f18", nullptr, nullptr},
{189, "f19", nullptr, nullptr},
{190, "f20", nullptr, nullptr},
{191, "f21", "prog1", nullptr},
{192, "f22", "prog2", nullptr},
{193, "f23", "prog3", nullptr},
{194, "f24", "prog4", nullptr},
{195, "noop", nullptr, nullptr},
{200, "playcd", nullptr, nullptr},
{201, "pausecd", nullptr, nullptr},
{202, "scrollleft", nullptr, nullptr},
{203, "scrollright", nullptr, nullptr},
{204, "dashboard", nullptr, nullptr},
{205, "suspend", nullptr, nullptr},
{206, "close", nullptr, nullptr},
{207, "play", nullptr, nullptr},
{208, "fastforward", nullptr, nullptr},
{209, "bassboost", nullptr, nullptr},
{210, "print", nullptr, nullptr},
{211, "hp", nullptr, nullptr},
{212, "camera", nullptr, nullptr},
{213, "sound", nullptr, nullptr},
{214, "question", nullptr, nullptr},
{215, "email", nullptr, nullptr},
{216, "chat", nullptr, nullptr},
{217, "search", nullptr, nullptr},
{218, "connect", nullptr, nullptr},
{219, "finance", nullptr, nullptr},
{220, "sport", nullptr, nullptr},
{221, "shop", nullptr, nullptr},
{222, "voicecommand", nullptr, nullptr},
{223, "cancel", nullptr, nullptr},
{224, "brightnessdown", nullptr, nullptr},
{225, "brightnessup", nullptr, nullptr},
{226, "media", nullptr, nullptr},
{227, "switchvideomode", nullptr, nullptr},
{228, "kbdillumtoggle", nullptr, nullptr},
{229, "kbdillumdown", nullptr, nullptr},
{230, "kbdillumup", nullptr, nullptr},
{231, "send", nullptr, nullptr},
{232, "reply", nullptr, nullptr},
{233, "forwardmail", nullptr, nullptr},
{234, "save", nullptr, nullptr},
{235, "documents", nullptr, nullptr},
{236, "battery", nullptr, nullptr},
{237, "bluetooth", nullptr, nullptr},
{238, "wlan", nullptr, nullptr},
{239, "uwb", nullptr, nullptr},
{240, "unknown", nullptr, nullptr},
{241, "next", nullptr, nullptr},
{242, "prev", nullptr, nullptr},
{243, "cycle", nullptr, nullptr},
{244, "auto", nullptr, nullptr},
{245, "off", nullptr, nullptr},
{246, "wwan", nullptr, nullptr},
{247, "rfkill", nullptr, nullptr},
{248, "micmute", nullptr, nullptr},
{249, "leftmouse", nullptr, nullptr},
{250, "middlemouse", nullptr, nullptr},
{251, "rightmouse", nullptr, nullptr},
{252, "mouse1", nullptr, nullptr},
{253, "mouse2", nullptr, nullptr},
{254, "fn", nullptr, nullptr},
{255, "mouseforward", nullptr, nullptr},
