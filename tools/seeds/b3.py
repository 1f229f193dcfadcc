K = "src/KeyHandler.cpp"
DATA = '''
  Demo d;
  d.put(d.root + "/share/fcitx5/data/mcbopomofo-data.txt",
        "# format org.openvanilla.mcbopomofo.sorted\\n"
        "ㄋㄧˇ 你 -3\\nㄋㄧˇ-ㄋㄧˇ 𠀀𠀁 -1\\nㄋㄧˇ-ㄋㄧˇ-ㄋㄧˇ 尼 -0.1\\nㄋㄧˇ-ㄏㄠˇ 你好嗎 -4\\nㄏㄠˇ 好 -3\\n");
  d.eng->languageModelLoader_->loadModelForMode(McBopomofo::InputMode::McBopomofo);
'''
SEEDS = [
 dict(id="P34-mark-dropped-at-edge", property="P34",
  needs="marking up to the end of the composition and pressing Shift with the same arrow once more",
  breaks="an arrow key that cannot move ends the mark although the cursor is still away from its beginning",
  edits=[(K, """  if (!isValidMove) {
    errorCallback();
  }

  if (key.shiftPressed &&""", """  if (!isValidMove) {
    errorCallback();
    stateCallback(buildInputtingState());
    return true;
  }

  if (key.shiftPressed &&""")],
  demo='''
  Demo d;
  d.type("su3cl3");
  for (int i = 0; i < 2; ++i) d.key(FcitxKey_Left, fcitx::KeyState::Shift);
  CHECK(d.state<S::Marking>());
  d.key(FcitxKey_Left, fcitx::KeyState::Shift);
  CHECK(d.state<S::Marking>() && d.state<S::Marking>()->markedText == "你好");
'''),
 dict(id="P34-tone-and-reading-deleted", property="P34",
  needs="a tone mark typed alone behind other readings, then Backspace",
  breaks="Backspace takes the tone mark and the reading before the cursor at once",
  edits=[(K, """    reading_.clear();
  } else if (reading_.isEmpty()) {
    bool isValidDelete = false;""", """    reading_.clear();
  }
  if (reading_.isEmpty()) {
    bool isValidDelete = false;""")],
  demo='''
  Demo d;
  d.type("su3cl3");
  d.type("3");
  CHECK(d.preedit().find("你好") == 0);
  d.key(FcitxKey_BackSpace);
  CHECK(d.preedit() == "你好");
'''),
 dict(id="P35-cursor-behind-short-phrase", property="P35",
  needs="a phrase of three readings with one character, another phrase behind it, and the cursor between the second and third reading",
  breaks="the text of the following phrase is counted as before the cursor",
  edits=[(K, "    runningCursor += distance;", "    runningCursor += cpLen;")],
  demo=DATA + '''
  d.type("su3su3su3cl3");
  CHECK(d.preedit() == "尼好");
  d.key(FcitxKey_Left);
  d.key(FcitxKey_Left);
  auto* s = d.state<S::Inputting>();
  CHECK(s && s->composingBuffer == "尼好" && s->cursorIndex == 3);
'''),
 dict(id="P35-three-bytes-a-character", property="P35",
  needs="a phrase with characters outside the basic plane (four bytes) and the cursor inside it",
  breaks="the cursor inside a phrase is put three bytes per character, in the middle of a four-byte character",
  edits=[(K, "    composedCursor += actualValue.length();", "    composedCursor += actualValue.empty() ? 0 : cpLen * 3;")],
  demo=DATA + '''
  d.type("su3su3");
  CHECK(d.preedit() == "𠀀𠀁");
  d.key(FcitxKey_Left);
  auto* s = d.state<S::Inputting>();
  CHECK(s && s->cursorIndex == 4);
'''),
 dict(id="P35-hint-for-long-phrase", property="P35",
  needs="a phrase with more characters than readings and the cursor inside it",
  breaks="the hint about the cursor being between syllables is shown although the phrase is not shorter than its readings",
  edits=[(K, "    if (valueCodePointCount < readingLength) {", "    if (valueCodePointCount != readingLength) {")],
  demo=DATA + '''
  d.type("su3cl3");
  CHECK(d.preedit() == "你好嗎");
  d.key(FcitxKey_Left);
  auto* s = d.state<S::Inputting>();
  CHECK(s && s->tooltip.empty() && s->cursorIndex == 3);
'''),
]
