K = "src/KeyHandler.cpp"; M = "src/McBopomofo.cpp"; H = "src/KeyHandler.h"; I = "src/InputState.h"
SEEDS = [
 dict(id="P01-callback-by-reference", property="P01",
  needs="Plain Bopomofo with associated phrases enabled, selecting a candidate that has associated phrases: the callback is called a second time after the first call destroyed the candidate word that owns it",
  breaks="candidateSelected keeps using the candidate word's callback after the state (and the list owning the word) was replaced: use after free",
  edits=[(H, "      size_t originalCursor, StateCallback stateCallback);", "      size_t originalCursor, const StateCallback& stateCallback);"),
         (K, "    size_t originalCursor, StateCallback stateCallback) {", "    size_t originalCursor, const StateCallback& stateCallback) {")],
  env="ENGINE=1\nASAN=1",
  demo='''
  Demo d;
  d.eng->config_.associatedPhrasesEnabled.setValue(true);
  d.activate(true);
  d.type("su3");
  CHECK(d.list());
  if (d.list()) d.list()->candidate(0).select(d.ic.get());
  CHECK(d.committed() == "<你>");
'''),
 dict(id="P01-reading-after-commit", property="P01",
  needs="Plain Bopomofo with associated phrases enabled, selecting a candidate from the list",
  breaks="candidateSelected reads the selected candidate (owned by the replaced state) after the commit callback freed it",
  edits=[(K, '''    std::string reading = candidate.reading;
    std::string value = candidate.value;
    std::unique_ptr<InputStates::Committing> committingState =
        std::make_unique<InputStates::Committing>(value);
    stateCallback(std::move(committingState));

    if (associatedPhrasesEnabled_) {
      auto associatedPhrasesPlainState =
          buildAssociatedPhrasesPlainState(reading, value);''', '''    std::unique_ptr<InputStates::Committing> committingState =
        std::make_unique<InputStates::Committing>(candidate.value);
    stateCallback(std::move(committingState));

    if (associatedPhrasesEnabled_) {
      auto associatedPhrasesPlainState =
          buildAssociatedPhrasesPlainState(candidate.reading, candidate.value);''')],
  env="ENGINE=1\nASAN=1",
  demo='''
  Demo d;
  d.eng->config_.associatedPhrasesEnabled.setValue(true);
  d.activate(true);
  d.type("su3");
  CHECK(d.list());
  if (d.list()) d.list()->candidate(0).select(d.ic.get());
  CHECK(d.committed() == "<你>");
'''),
 dict(id="P02-reset-commits-twice", property="P02",
  needs="the application resets the input context (InputContextReset) while text is being composed",
  breaks="the reset commits the pre-edit although the application already took it",
  edits=[(M, '''  if (event.type() == fcitx::EventType::InputContextFocusOut ||
      event.type() == fcitx::EventType::InputContextReset) {''', '''  if (event.type() == fcitx::EventType::InputContextFocusOut) {''')],
  demo='''
  Demo d;
  d.type("su3cl3");
  CHECK(d.preedit() == "你好");
  d.reset(fcitx::EventType::InputContextReset);
  CHECK(d.committed().empty());
'''),
 dict(id="P02-stale-tooltip", property="P02",
  needs="leaving Marking for a composing state without a tooltip in a client without client pre-edit",
  breaks="the panel of a composing state is no longer cleared first, so an earlier tooltip stays on screen",
  edits=[(M, '''  context->inputPanel().setAuxDown(fcitx::Text(state->tooltip));
  context->updatePreedit();''', '''  if (!state->tooltip.empty()) {
    context->inputPanel().setAuxDown(fcitx::Text(state->tooltip));
  }
  context->updatePreedit();'''),
         (M, '''                                            InputStates::Inputting* current) {
  context->inputPanel().reset();''', '''                                            InputStates::Inputting* current) {
  context->inputPanel().setCandidateList(nullptr);''')],
  demo='''
  Demo d;
  d.type("su3cl3");
  d.key(FcitxKey_Left, fcitx::KeyState::Shift);
  CHECK(d.state<S::Marking>());
  CHECK(!d.ic->inputPanel().auxDown().toString().empty());
  d.key(FcitxKey_Escape);
  CHECK(d.state<S::Inputting>());
  CHECK(d.ic->inputPanel().auxDown().toString().empty());
'''),
 dict(id="P03-date-macro-not-routed", property="P03",
  needs="the date menu on screen and a key other than a mouse selection",
  breaks="keys pressed while the date list is shown go to composition instead of the list",
  edits=[(M, '''      dynamic_cast<InputStates::SelectingFeature*>(state_.get()) != nullptr ||
      dynamic_cast<InputStates::SelectingDateMacro*>(state_.get()) != nullptr) {
    // Absorb''', '''      dynamic_cast<InputStates::SelectingFeature*>(state_.get()) != nullptr) {
    // Absorb''')],
  demo='''
  Demo d;
  d.key(static_cast<fcitx::KeySym>('\\\\'), fcitx::KeyState::Ctrl);
  CHECK(d.state<S::SelectingFeature>());
  d.type("1");
  CHECK(d.state<S::SelectingDateMacro>());
  CHECK(d.key(static_cast<fcitx::KeySym>('q')));
  CHECK(d.state<S::SelectingDateMacro>());
'''),
 dict(id="P03-no-refresh-plain-associated", property="P03",
  needs="the plain associated-phrase list on screen after a key was handled by the list",
  breaks="the panel is not refreshed, so the list on screen no longer matches the highlighted entry",
  edits=[(M, '''        dynamic_cast<InputStates::AssociatedPhrasesPlain*>(state_.get()) !=
            nullptr ||
        dynamic_cast<InputStates::SelectingFeature*>(state_.get()) != nullptr ||
        dynamic_cast<InputStates::SelectingDateMacro*>(state_.get()) !=
            nullptr) {
      context''', '''        dynamic_cast<InputStates::SelectingFeature*>(state_.get()) != nullptr ||
        dynamic_cast<InputStates::SelectingDateMacro*>(state_.get()) !=
            nullptr) {
      context'''),
         (M, '''  if (idx != -1 && idx < candidateList->size()) {''' if False else '''    if (key.check(fcitx::Key(FcitxKey_Right)) ||
        key.check(fcitx::Key(FcitxKey_KP_Right))) {
      candidateList->toCursorMovable()->nextCandidate();
      context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
      return true;''', '''    if (key.check(fcitx::Key(FcitxKey_Right)) ||
        key.check(fcitx::Key(FcitxKey_KP_Right))) {
      candidateList->toCursorMovable()->nextCandidate();
      return true;''')],
  demo='''
  Demo d;
  d.eng->config_.associatedPhrasesEnabled.setValue(true);
  d.eng->config_.candidateLayout.setValue(McBopomofo::CandidateLayoutHint::Horizontal);
  d.activate(true);
  d.type("su3");
  if (d.list()) d.list()->candidate(0).select(d.ic.get());
  CHECK(d.state<S::AssociatedPhrasesPlain>());
  int before = d.refreshes;
  d.key(FcitxKey_Right);
  CHECK(d.refreshes > before);
'''),
 dict(id="P07-ruby-keeps-composition", property="P07",
  needs="Ctrl+Enter configured to output HTML ruby text",
  breaks="the committed text stays composed and reappears with the next syllable",
  edits=[(K, '''            std::make_unique<InputStates::Committing>(output);
        stateCallback(std::move(committingState));
        reset();
        return true;''', '''            std::make_unique<InputStates::Committing>(output);
        stateCallback(std::move(committingState));
        reading_.clear();
        return true;''')],
  demo='''
  Demo d;
  d.eng->config_.ctrlEnterKeys.setValue(McBopomofo::KeyHandlerCtrlEnter::OutputHTMLRubyText);
  d.activate();
  d.type("su3");
  d.key(FcitxKey_Return, fcitx::KeyState::Ctrl);
  CHECK(d.ic->commits.size() == 1);
  d.type("cl3");
  CHECK(d.preedit() == "好");
'''),
 dict(id="P07-esc-keeps-syllable", property="P07",
  needs="Esc-clears-everything enabled, text composed and a half-typed syllable pending",
  breaks="Esc discards the composed text but the pending syllable survives in the discarded session",
  edits=[(K, '''    if (escKeyClearsEntireComposingBuffer_) {
      reset();''', '''    if (escKeyClearsEntireComposingBuffer_) {
      grid_.clear();
      latestWalk_ = Formosa::Gramambular2::ReadingGrid::WalkResult();''')],
  demo='''
  Demo d;
  d.eng->config_.escKeyClearsEntireComposingBuffer.setValue(true);
  d.activate();
  d.type("su3cl");
  d.key(FcitxKey_Escape);
  CHECK(d.state<S::Empty>());
  CHECK(d.eng->keyHandler_->reading_.isEmpty());
'''),
 dict(id="P08-delete-last-not-recomputed", property="P08",
  needs="Delete (forward) with the cursor at the start, repeated until the composition is empty, then a following operation that looks at the sentence",
  breaks="after the last reading is deleted the old sentence is kept and is shown or consulted again",
  edits=[(K, '''      return true;
    }
    walk();
  } else {
    if (key.ascii == Key::BACKSPACE) {''', '''      return true;
    }
    if (grid_.length() != 0) {
      walk();
    }
  } else {
    if (key.ascii == Key::BACKSPACE) {''')],
  demo='''
  Demo d;
  d.type("su3");
  d.key(FcitxKey_BackSpace);
  CHECK(d.preedit().empty());
  CHECK(d.state<S::Empty>());
  CHECK(d.eng->keyHandler_->latestWalk_.nodes.empty());
'''),
 dict(id="P08-letter-not-recomputed", property="P08",
  needs="Shift+Space with lowercase letters put to the buffer",
  breaks="the space inserted is not part of the sentence that is shown and committed",
  edits=[(K, '''      grid_.insertReading(" ");
      walk();
      stateCallback(buildInputtingState());''', '''      if (grid_.insertReading(" ") && grid_.length() == 1) {
        walk();
      }
      stateCallback(buildInputtingState());''')],
  files={},
  demo='''
  Demo d;
  d.eng->config_.shiftLetterKeys.setValue(McBopomofo::ShiftLetterKeys::PutLowercaseToBuffer);
  d.activate();
  d.type("su3");
  d.key(static_cast<fcitx::KeySym>(' '), fcitx::KeyState::Shift);
  size_t n = 0;
  for (auto& x : d.eng->keyHandler_->latestWalk_.nodes) n += x->spanningLength();
  CHECK(n == d.eng->keyHandler_->grid_.length());
  CHECK(d.preedit() == "你 ");
'''),
 dict(id="P22-unhandled-but-moved", property="P22",
  needs="Ctrl+Enter with no Ctrl+Enter action configured while marking",
  breaks="the key is reported as not handled although the composition was discarded",
  edits=[(K, '''        reset();
        return true;
      }
      return false;
    }

    // See if''', '''        reset();
        return true;
      }
      if (grid_.length() != 0) {
        grid_.setCursor(grid_.length());
        stateCallback(buildInputtingState());
      }
      return false;
    }

    // See if''')],
  demo='''
  Demo d;
  d.type("su3cl3");
  d.key(FcitxKey_Home);
  CHECK(d.eng->keyHandler_->grid_.cursor() == 0);
  bool a = d.key(FcitxKey_Return, fcitx::KeyState::Ctrl);
  CHECK(a || d.eng->keyHandler_->grid_.cursor() == 0);
'''),
 dict(id="P22-super-swallowed", property="P22",
  needs="a key with Super held while a candidate list is shown",
  breaks="desktop shortcuts with Super are absorbed by the input method",
  edits=[(M, '''  if (key.states() & fcitx::KeyState::Alt ||
      key.states() & fcitx::KeyState::Super ||''', '''  if (key.states() & fcitx::KeyState::Alt ||
      key.states() & fcitx::KeyState::Super2 ||''')],
  demo='''
  Demo d;
  d.type("su3");
  CHECK(!d.key(static_cast<fcitx::KeySym>('a'), fcitx::KeyState::Super));
'''),
 dict(id="P23-one-past-the-page", property="P23",
  needs="a selection key exactly one past the last candidate of the page",
  breaks="the candidate list is asked for an entry that does not exist",
  edits=[(M, '''    if (idx != -1 && idx < candidateList->size()) {''', '''    if (idx != -1 && idx <= candidateList->size()) {''')],
  demo='''
  Demo d;
  d.type("su3 ");
  CHECK(d.list());
  int n = d.list() ? d.list()->size() : 0;
  bool threw = false;
  try {
    d.key(static_cast<fcitx::KeySym>('1' + n));
  } catch (const std::exception& e) {
    threw = true;
  }
  CHECK(!threw);
'''),
 dict(id="P26-marking-copy-loses-range", property="P26",
  needs="opening the dictionary list from a marked range and leaving it again, then extending the mark",
  breaks="the copied marking state forgets where marking began",
  edits=[(I, '''        markStartGridCursorIndex(state.markStartGridCursorIndex),
        head(state.head),''', '''        markStartGridCursorIndex(state.head.length()),
        head(state.head),''')],
  demo='''
  Demo d;
  d.type("su3cl3su3");
  d.key(FcitxKey_Left);
  d.key(FcitxKey_Left, fcitx::KeyState::Shift);
  d.key(FcitxKey_Left, fcitx::KeyState::Shift);
  CHECK(d.state<S::Marking>());
  size_t before = d.state<S::Marking>() ? d.state<S::Marking>()->markStartGridCursorIndex : 0;
  d.type("?");
  CHECK(d.state<S::SelectingDictionary>());
  d.key(FcitxKey_Escape);
  CHECK(d.state<S::Marking>());
  CHECK(d.state<S::Marking>() && d.state<S::Marking>()->markStartGridCursorIndex == before);
'''),
 dict(id="P26-page-index-remembered", property="P26",
  needs="opening the dictionary list for a candidate on the second page of the candidate list and cancelling",
  breaks="the candidate highlighted after cancelling is the one at the same place on the first page",
  edits=[(M, '''        auto newState = keyHandler_->buildSelectingDictionaryState(
            std::move(copy), phrase, selectedCandidateIndex);''', '''        auto newState = keyHandler_->buildSelectingDictionaryState(
            std::move(copy), phrase, candidateList->cursorIndex());''')],
  demo='''
  Demo d;
  std::string s = "# format org.openvanilla.mcbopomofo.sorted\\n";
  for (int i = 0; i < 15; ++i) s += "ㄋㄧˇ 字" + std::to_string(i) + " -" + std::to_string(i + 1) + "\\n";
  d.put(d.root + "/share/fcitx5/data/mcbopomofo-data.txt", s);
  d.eng->languageModelLoader_->loadModelForMode(McBopomofo::InputMode::McBopomofo);
  d.eng->config_.candidateLayout.setValue(McBopomofo::CandidateLayoutHint::Vertical);
  d.type("su3 ");
  CHECK(d.list());
  d.key(FcitxKey_Page_Down);
  int at = d.list() ? d.list()->globalCursorIndex() : -1;
  CHECK(at >= 9);
  d.type("?");
  CHECK(d.state<S::SelectingDictionary>());
  d.key(FcitxKey_Escape);
  CHECK(d.list() && d.list()->globalCursorIndex() == at);
'''),
]
