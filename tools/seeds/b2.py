E_ = "src/Engine/"
G = E_ + "gramambular2/reading_grid.cpp"
GH = '''#include "reading_grid.h"
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace Formosa::Gramambular2;
struct LM : LanguageModel {
  std::map<std::string, std::vector<Unigram>> m;
  void add(const std::string& r, const std::string& v, double s) { m[r].emplace_back(v, s); }
  std::vector<Unigram> getUnigrams(const std::string& r) override { return m.count(r) ? m[r] : std::vector<Unigram>(); }
  bool hasUnigrams(const std::string& r) override { return m.count(r) > 0; }
};
static int failures = 0;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\\n", __LINE__, #c); ++failures; } } while (0)
static std::string text(ReadingGrid& g) { std::string r; for (auto& s : g.walk().valuesAsStrings()) r += s + "/"; return r; }
'''
RECORD = '''#include <string>
#include <vector>
// Stand-in: records what would have been started.
static std::vector<std::vector<std::string>> started;
namespace fcitx {
void startProcess(const std::vector<std::string>& args, const std::string&);
void startProcess(const std::vector<std::string>& args, const std::string&) { started.push_back(args); }
}
'''
LOADER = '''#include "LanguageModelLoader.h"
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <string>
#include <unistd.h>
using namespace McBopomofo;
namespace fs = std::filesystem;
struct LS : LanguageModelLoader::LocalizedStrings {
  std::string userPhraseFileHeader() override { return "# h\\n"; }
  std::string excludedPhraseFileHeader() override { return "# e\\n"; }
};
static int failures = 0;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\\n", __LINE__, #c); ++failures; } } while (0)
static void put(const std::string& p, const std::string& s) { std::ofstream(p) << s; }
static std::string cat(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
struct Dir {
  std::string root, dir;
  Dir() { char t[] = "/tmp/mcbdemoXXXXXX"; root = mkdtemp(t); dir = root + "/share/fcitx5/mcbopomofo"; fs::create_directories(dir);
    setenv("XDG_DATA_HOME", (root + "/share").c_str(), 1); setenv("XDG_DATA_DIRS", (root + "/none").c_str(), 1); setenv("SKIP_FCITX_PATH", "1", 1); }
  ~Dir() { if (root.rfind("/tmp/mcbdemo", 0) == 0) fs::remove_all(root); }
};
'''
SEEDS = [
 dict(id="P04-eten26-swapped-order", property="P04",
  needs="the ETen26 layout and a syllable starting with the F key",
  breaks="the F key of the ETen26 layout prefers its tone to its consonant",
  edits=[(E_ + "Mandarin/Mandarin.cpp", "  ASSIGNKEY2(ktcm, vec, 'f', BPMF::F, BPMF::Tone2);", "  ASSIGNKEY2(ktcm, vec, 'f', BPMF::Tone2, BPMF::F);")],
  env="", demo='''#include "Mandarin.h"
#include <cstdio>
using namespace Formosa::Mandarin;
int main() {
  auto* l = BopomofoKeyboardLayout::ETen26Layout();
  auto v = l->keyToComponents('f');
  for (auto c : v) std::printf("%d ", (int)(c == BPMF::F));
  return !(v.size() == 2 && v[0] == BPMF::F && v[1] == BPMF::Tone2);
}
'''),
 dict(id="P05-plain-keeps-layout", property="P05",
  needs="changing the layout option while only Plain Bopomofo is used",
  breaks="Plain Bopomofo keeps typing with the previous keyboard layout",
  edits=[("src/McBopomofo.cpp", "  keyHandler_->setKeyboardLayout(layout);", """  if (mode == McBopomofo::InputMode::McBopomofo) {
    keyHandler_->setKeyboardLayout(layout);
  }""")],
  demo='''#include <sstream>
#define private public
#include "KeyHandler.h"
#undef private
#include "eng.h"
int main() {
  Demo d;
  d.eng->config_.bopomofoKeyboardLayout.setValue(McBopomofo::BopomofoKeyboardLayout::IBM);
  d.activate(true);
  CHECK(d.eng->keyHandler_->reading_.keyboardLayout() == Formosa::Mandarin::BopomofoKeyboardLayout::IBMLayout());
  return failures != 0;
}
'''),
 dict(id="P06-half-width-not-in-plain", property="P06",
  needs="half-width punctuation turned on in the configuration, then Plain Bopomofo activated without McBopomofo being activated in between",
  breaks="the stored half-width preference is not applied when Plain Bopomofo is activated",
  edits=[("src/McBopomofo.cpp", """  keyHandler_->setHalfWidthPunctuationEnabled(
      config_.halfWidthPunctuationEnable.value());
  languageModelLoader_""", """  if (mode == McBopomofo::InputMode::McBopomofo) {
    keyHandler_->setHalfWidthPunctuationEnabled(
        config_.halfWidthPunctuationEnable.value());
  }
  languageModelLoader_""")],
  demo='''#include <sstream>
#define private public
#include "KeyHandler.h"
#undef private
#include "eng.h"
int main() {
  Demo d;
  d.eng->config_.halfWidthPunctuationEnable.setValue(true);
  d.activate(true);
  CHECK(d.eng->keyHandler_->halfWidthPunctuationEnabled_);
  return failures != 0;
}
'''),
 dict(id="P09-longest-span-kept", property="P09",
  needs="a phrase of the greatest supported length (six readings), cut just before its last reading by an insertion",
  breaks="the phrase that the edit cut through is kept in the lattice",
  edits=[(G, "  size_t affectedLength = kMaximumSpanLength - 1;", "  size_t affectedLength = kMaximumSpanLength - 2;")],
  env="", demo=GH + r"""int main() {
  auto lm = std::make_shared<LM>();
  const char* r[] = {"a", "b", "c", "d", "e", "f"};
  for (const char* x : r) lm->add(x, x, -1);
  lm->add("x", "x", -1);
  lm->add("a-b-c-d-e-f", "W", -0.5);
  ReadingGrid g(lm);
  g.setReadingSeparator("-");
  for (const char* x : r) g.insertReading(x);
  CHECK(text(g) == "W/");
  g.setCursor(5);
  g.insertReading("x");
  CHECK(text(g) == "a/b/c/d/e/x/f/");
  return failures != 0;
}
"""),
 dict(id="P10-blob-end-after-read", property="P10",
  needs="a user phrase file whose size fills its last memory page, so that the byte after the text is not mapped",
  breaks="the reader looks at the character before checking that it is inside the buffer",
  edits=[(E_ + "KeyValueBlobReader.cpp", """  while (current_ != end_ && *current_) {
    if (f(*current_)) {""", """  while (*current_ && current_ != end_) {
    if (f(*current_)) {""")],
  env='ASAN=1\nSRCS="$PWD/src/Engine/KeyValueBlobReader.cpp"',
  demo='''#include "KeyValueBlobReader.h"
#include <cstring>
using namespace McBopomofo;
int main() {
  const char* t = "foo bar";
  char* p = new char[7];
  std::memcpy(p, t, 7);
  KeyValueBlobReader r(p, 7);
  KeyValueBlobReader::KeyValue kv;
  int n = 0;
  while (r.Next(&kv) == KeyValueBlobReader::State::HAS_PAIR) ++n;
  delete[] p;
  return n == 1 ? 0 : 1;
}
'''),
 dict(id="P10-reverse-lookup-past-end", property="P10",
  needs="looking up the reading of a text longer by one than what is left at the end of the data",
  breaks="the reverse look-up compares one byte past the end of the data",
  edits=[(E_ + "ParselessPhraseDB.cpp", "    if (ptr + value.length() < end_ &&", "    if (ptr + value.length() - 1 <= end_ &&")],
  env='ASAN=1\nSRCS="$PWD/src/Engine/ParselessPhraseDB.cpp"', demo='''#include "ParselessPhraseDB.h"
#include <cstring>
using namespace McBopomofo;
int main() {
  char* p = new char[5];
  std::memcpy(p, "a xyz", 5);
  size_t n;
  {
    ParselessPhraseDB db(p, 5, false);
    n = db.reverseFindRows("xyz1").size();
  }
  delete[] p;
  return n != 0;
}
'''),
 dict(id="P11-empty-file-leaks-descriptor", property="P11",
  needs="an empty user phrase file being reloaded again and again",
  breaks="opening an empty file keeps its descriptor open for ever",
  edits=[(E_ + "MemoryMappedFile.cpp", """  length_ = static_cast<size_t>(sb.st_size);

  data_""", """  length_ = static_cast<size_t>(sb.st_size);
  if (length_ == 0) {
    return false;
  }

  data_""")],
  env="", demo='''#include "MemoryMappedFile.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <fcntl.h>
#include <unistd.h>
int main() {
  char t[] = "/tmp/mcbdemoXXXXXX";
  int fd = mkstemp(t);
  close(fd);
  int before = dup(0);
  close(before);
  for (int i = 0; i < 20; ++i) {
    McBopomofo::MemoryMappedFile f;
    f.open(t);
    f.close();
  }
  int after = dup(0);
  unlink(t);
  std::printf("%d %d\\n", before, after);
  return before != after;
}
'''),
 dict(id="P11-move-assign-drops-mapping", property="P11",
  needs="assigning over a file object that is already open",
  breaks="the mapping and descriptor of the object assigned to are lost",
  edits=[(E_ + "MemoryMappedFile.cpp", """  close();
  fd_ = std::exchange(other.fd_, -1);
  data_ = std::exchange(other.data_, nullptr);
  length_ = std::exchange(other.length_, 0);
  return *this;""", """  if (other.data_ == nullptr) {
    close();
  }
  fd_ = std::exchange(other.fd_, -1);
  data_ = std::exchange(other.data_, nullptr);
  length_ = std::exchange(other.length_, 0);
  return *this;""")],
  env="", demo='''#include "MemoryMappedFile.h"
#include <cstdio>
#include <cstdlib>
#include <utility>
#include <fcntl.h>
#include <unistd.h>
int main() {
  char t[] = "/tmp/mcbdemoXXXXXX";
  int fd = mkstemp(t);
  if (write(fd, "abc", 3) != 3) return 2;
  close(fd);
  int before = dup(0);
  close(before);
  for (int i = 0; i < 20; ++i) {
    McBopomofo::MemoryMappedFile f, g;
    f.open(t);
    g.open(t);
    f = std::move(g);
  }
  int after = dup(0);
  unlink(t);
  return before != after;
}
'''),
 dict(id="P12-unterminated-file-truncated", property="P12",
  needs="a user phrase file whose last line has no newline (edited by hand), then a phrase is added by marking",
  breaks="the file is opened for rewriting instead of appending, losing every phrase in it",
  edits=[("src/LanguageModelLoader.cpp", "  std::ofstream ofs(userPhrasesPath_.path(), std::ios_base::app);",
          "  std::ofstream ofs(userPhrasesPath_.path(),\n                    needsNewline ? std::ios_base::out : std::ios_base::app);")],
  env="", demo=LOADER + '''int main() {
  Dir d;
  put(d.dir + "/data.txt", "p1 r1\\np2 r2");
  LanguageModelLoader l(std::make_unique<LS>());
  l.addUserPhrase("r3", "p3");
  CHECK(cat(d.dir + "/data.txt") == "p1 r1\\np2 r2\\np3 r3\\n");
  return failures != 0;
}
'''),
 dict(id="P12-header-over-directory-race", property="P12",
  needs="a user phrase file that exists but is empty of rules (zero bytes)",
  breaks="an existing user file is rewritten with the header when the input method starts if it is a symbolic link",
  edits=[("src/LanguageModelLoader.cpp", "  if (!userPhrasesPath_.path().empty() && !userPhrasesPath_.pathExists()) {",
          "  if (!userPhrasesPath_.path().empty() &&\n      (!userPhrasesPath_.pathExists() ||\n       std::filesystem::is_symlink(userPhrasesPath_.path()))) {")],
  env="", demo=LOADER + '''int main() {
  Dir d;
  put(d.root + "/mine.txt", "p1 r1\\n");
  fs::create_symlink(d.root + "/mine.txt", d.dir + "/data.txt");
  LanguageModelLoader l(std::make_unique<LS>());
  CHECK(cat(d.root + "/mine.txt") == "p1 r1\\n");
  return failures != 0;
}
'''),
 dict(id="P13-subdelims-not-encoded", property="P13",
  needs="looking up a phrase that contains an ampersand (a user phrase or letters put in the composition)",
  breaks="an ampersand of the phrase goes into the address unencoded",
  edits=[("src/DictionaryService.cpp", "|| c == '.' || c == '~') {", "|| c == '.' || c == '~' ||\n        c == '&') {")],
  env="ENGINE=1\nASAN=1", demo=RECORD + '''#include "eng.h"
#include "DictionaryService.h"
int main() {
  Demo d;
  McBopomofo::DictionaryServices s;
  s.load();
  s.lookup("a&b", 1, nullptr, [](std::unique_ptr<McBopomofo::InputState>) {});
  CHECK(started.size() == 1 && started[0].size() == 2 && started[0][1] == "http://127.0.0.1:9/a%26b");
  return failures != 0;
}
'''),
 dict(id="P14-service-name-in-format", property="P14",
  needs="a dictionary service whose name contains a brace",
  breaks="the service name from the data file is used as part of a format text",
  edits=[("src/DictionaryService.cpp", """    return fmt::format(_("Look up \\"{0}\\" in {1}"), selectedString, name_);""",
          """    std::string pattern = _("Look up \\"{0}\\" in {1}");
    size_t at = pattern.find("{1}");
    if (at != std::string::npos) {
      pattern.replace(at, 3, name_);
    }
    return fmt::format(fmt::runtime(pattern), selectedString);""")],
  demo='''#include "eng.h"
#include "DictionaryService.h"
int main() {
  Demo d;
  d.put(d.root + "/share/fcitx5/data/mcbopomofo-dictionary-service.json",
        "{\\"services\\":[{\\"name\\":\\"A{}B\\",\\"url_template\\":\\"http://127.0.0.1:9/(encoded)\\"}]}");
  McBopomofo::DictionaryServices s;
  s.load();
  try {
    auto m = s.menuForPhrase("x");
    CHECK(m.size() == 2 && m[1].find("A{}B") != std::string::npos);
  } catch (const std::exception& e) {
    CHECK(false);
  }
  return failures != 0;
}
'''),
 dict(id="P16-seven-syllables", property="P16",
  needs="marking a range of exactly seven syllables and pressing Enter",
  breaks="a seven-syllable phrase is stored although only two to six are allowed",
  edits=[("src/KeyHandler.cpp", "  } else if (readings.size() > kMaxValidMarkingReadingCount) {", "  } else if (readings.size() > kMaxValidMarkingReadingCount + 1) {")],
  demo='''#include <sstream>
#define private public
#include "KeyHandler.h"
#undef private
#include "eng.h"
int main() {
  Demo d;
  int added = 0;
  d.eng->keyHandler_->setOnAddNewPhrase([&](std::string) { ++added; });
  d.type("su3cl3su3su3su3su3su3");
  for (int i = 0; i < 7; ++i) d.key(FcitxKey_Left, fcitx::KeyState::Shift);
  CHECK(d.state<S::Marking>());
  std::string stored = d.root + "/share/fcitx5/mcbopomofo/data.txt";
  std::ifstream f(stored);
  std::stringstream before;
  before << f.rdbuf();
  d.key(FcitxKey_Return);
  std::ifstream g(stored);
  std::stringstream after;
  after << g.rdbuf();
  CHECK(before.str() == after.str());
  CHECK(added == 0);
  CHECK(d.state<S::Marking>());
  return failures != 0;
}
'''),
 dict(id="P16-marked-end-not-swapped", property="P16",
  needs="marking towards the right (Shift+Right) instead of towards the left",
  breaks="the marked text is cut at the wrong side: text and readings of a phrase marked to the right no longer match",
  edits=[("src/KeyHandler.cpp", """    std::swap(from, to);
    std::swap(fromIndex, toIndex);""", """    std::swap(from, to);
    std::swap(fromIndex, toIndex);
    toIndex = std::min(toIndex, fromIndex + kMaxValidMarkingReadingCount);""")],
  demo='''
  Demo d;
  d.type("su3cl3su3su3su3su3su3su3");
  for (int i = 0; i < 8; ++i) d.key(FcitxKey_Left, fcitx::KeyState::Shift);
  auto* m = d.state<S::Marking>();
  CHECK(m && !m->acceptable);
'''),
 dict(id="P17-keypad-enter-unmarked", property="P17",
  needs="the keypad's Delete key",
  breaks="the keypad's Delete key is translated as if it came from the main keyboard",
  edits=[("src/McBopomofo.cpp", "      return Key::asciiKey(Key::DELETE, shiftPressed, ctrlPressed, true);", "      return Key::asciiKey(Key::DELETE, shiftPressed, ctrlPressed);")],
  demo='''#include "McBopomofo.cpp"
#include <cstdio>
int main() {
  auto k = McBopomofo::MapFcitxKey(fcitx::Key(FcitxKey_KP_Delete));
  return !(k.ascii == McBopomofo::Key::DELETE && k.isFromNumberPad);
}
''', env="EXTRA=\"-DDEMO\"\n"),
 dict(id="P18-second-dot", property="P18",
  needs="typing a decimal point, digits and a second decimal point in number entry",
  breaks="a number may contain two decimal points; the conversion joins the parts",
  edits=[("src/KeyHandler.cpp", "    if (state->number.find('.') != std::string::npos) {", "    if (!state->number.empty() && state->number.back() == '.') {")],
  demo='''
  Demo d;
  S::ChineseNumber n("1.2", McBopomofo::ChineseNumberStyle::LOWER);
  int errors = 0;
  std::string next = "-";
  d.eng->keyHandler_->handle(McBopomofo::Key::asciiKey('.'), &n, [&](std::unique_ptr<McBopomofo::InputState> s) {
    if (auto* c = dynamic_cast<S::ChineseNumber*>(s.get())) next = c->number;
  }, [&] { ++errors; });
  CHECK(next == "-" && errors == 1);
'''),
 dict(id="P18-longer-numbers", property="P18",
  needs="typing a Suzhou number of more than twenty digits",
  breaks="the length limit lets numbers grow past the table of place names",
  edits=[("src/KeyHandler.cpp", "constexpr size_t kMaxChineseNumberConversionDigits = 20;", "constexpr size_t kMaxChineseNumberConversionDigits = 80;")],
  env='ENGINE=1\nASAN=1\nSRCS="$PWD/src/ChineseNumbers/SuzhouNumbers.cpp $PWD/src/ChineseNumbers/ChineseNumbers.cpp"',
  demo='''
  Demo d;
  std::string number;
  for (int i = 0; i < 80; ++i) {
    S::ChineseNumber n(number, McBopomofo::ChineseNumberStyle::SUZHOU);
    d.eng->keyHandler_->handle(McBopomofo::Key::asciiKey('7'), &n, [&](std::unique_ptr<McBopomofo::InputState> s) {
      if (auto* c = dynamic_cast<S::ChineseNumber*>(s.get())) number = c->number;
    }, [] {});
  }
  S::ChineseNumber n(number, McBopomofo::ChineseNumberStyle::SUZHOU);
  d.eng->keyHandler_->handle(McBopomofo::Key::asciiKey(McBopomofo::Key::RETURN), &n, [&](std::unique_ptr<McBopomofo::InputState>) {}, [] {});
'''),
 dict(id="P19-exclude-after-replacement", property="P19",
  needs="a phrase that is both excluded and replaced",
  breaks="the user's exclusions are compared with the replaced text, so excluded phrases come back",
  edits=[(E_ + "McBopomofoLM.cpp", """    const std::string& originalValue = unigram.value();
    if (excludedValues.find(originalValue) != excludedValues.end()) {
      continue;
    }

    std::string value = originalValue;""", """    const std::string& originalValue = unigram.value();
    std::string value = originalValue;"""),
   (E_ + "McBopomofoLM.cpp", """        value = replacement;
      }
    }
    if (macroConverter_ != nullptr) {""", """        value = replacement;
      }
    }
    if (excludedValues.find(value) != excludedValues.end()) {
      continue;
    }
    if (macroConverter_ != nullptr) {""")],
  env="", demo='''#include "McBopomofoLM.h"
#include <cstdio>
#include <cstring>
using namespace McBopomofo;
int main() {
  static const char t[] = "a x -1\\na y -2\\n";
  McBopomofoLM lm;
  lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(t, std::strlen(t), false));
  lm.setPhraseReplacementEnabled(true);
  lm.loadPhraseReplacementMap("x z\\n", 4);
  lm.loadExcludedPhrases("x a\\n", 4);
  auto u = lm.getUnigrams("a");
  return !(u.size() == 1 && u[0].value() == "y");
}
'''),
 dict(id="P20-evict-order", property="P20",
  needs="observing more distinct contexts than the model's capacity",
  breaks="the key of the evicted entry is read after the entry was freed",
  edits=[(E_ + "UserOverrideModel.cpp", """      lruMap_.erase(lastKeyValuePair->first);
      lruList_.pop_back();""", """      const std::string& lastKey = lastKeyValuePair->first;
      lruList_.pop_back();
      lruMap_.erase(lastKey);""")],
  env='ASAN=1\nSRCS="$PWD/src/Engine/UserOverrideModel.cpp"',
  demo='''#define private public
#include "UserOverrideModel.h"
#undef private
using namespace McBopomofo;
int main() {
  UserOverrideModel m(2, 5400);
  for (int i = 0; i < 6; ++i) m.observe(std::to_string(i), "c", i);
  return m.lruList_.size() == 2 && m.lruMap_.size() == 2 ? 0 : 1;
}
'''),
 dict(id="P20-oldest-on-refresh", property="P20",
  needs="a context observed again after others, then more contexts than the capacity",
  breaks="observing a known context moves it to the end, so it is the next to be forgotten",
  edits=[(E_ + "UserOverrideModel.cpp", "    lruList_.splice(lruList_.begin(), lruList_, listIter);", "    lruList_.splice(lruList_.end(), lruList_, listIter);")],
  env='SRCS="$PWD/src/Engine/UserOverrideModel.cpp $PWD/src/Engine/gramambular2/reading_grid.cpp"', demo='''#define private public
#include "UserOverrideModel.h"
#undef private
using namespace McBopomofo;
int main() {
  UserOverrideModel m(2, 5400);
  m.observe("a", "x", 1);
  m.observe("b", "x", 2);
  m.observe("a", "x", 3);
  m.observe("c", "x", 4);
  return m.suggest("a", 5).candidate == "x" ? 0 : 1;
}
'''),
 dict(id="P21-timestamp-throws", property="P21",
  needs="a user phrase file that disappears between the existence check and the query of its time (or is unreadable)",
  breaks="the query of the file time may throw out of the input method",
  edits=[("src/TimestampedPath.cpp", """  if (!pathExists()) {
    std::filesystem::file_time_type zero = {};
    return timestamp_ != zero;
  }

  std::error_code err;
  std::filesystem::file_time_type t =
      std::filesystem::last_write_time(path_, err);
  if (err) {
    return true;
  }
""", """  std::filesystem::file_time_type zero = {};
  if (path_.empty()) {
    return timestamp_ != zero;
  }

  // One query tells both whether the file exists and how old it is.
  std::error_code err;
  if (std::filesystem::status(path_, err).type() ==
      std::filesystem::file_type::not_found) {
    return timestamp_ != zero;
  }
  std::filesystem::file_time_type t = std::filesystem::last_write_time(path_);
""")],
  env="", demo='''#include "TimestampedPath.h"
#include <cstdio>
#include <exception>
#include <string>
int main() {
  try {
    McBopomofo::TimestampedPath p(std::string("/tmp/") + std::string(300, 'x') + "/y");
    (void)p.timestampDifferentFromLastCheck();
  } catch (const std::exception& e) {
    std::puts(e.what());
    return 1;
  }
  return 0;
}
'''),
 dict(id="P24-older-file-ignored", property="P24",
  needs="a user file replaced by one with an older time (restored from a backup)",
  breaks="a user file that becomes older is not read again",
  edits=[("src/TimestampedPath.cpp", "  return t != timestamp_;", "  return t > timestamp_ || timestamp_ == decltype(timestamp_)();")],
  env="", demo=LOADER + '''int main() {
  Dir d;
  std::string p = d.dir + "/data.txt";
  put(p, "p1 r1\\n");
  LanguageModelLoader l(std::make_unique<LS>());
  auto lm = l.getLM();
  CHECK(lm->hasUnigrams("r1"));
  auto t = fs::last_write_time(p);
  put(d.root + "/other", "p2 r2\\n");
  fs::rename(d.root + "/other", p);
  fs::last_write_time(p, t - std::chrono::hours(5));
  l.reloadUserModelsIfNeeded();
  CHECK(lm->hasUnigrams("r2"));
  return failures != 0;
}
'''),
 dict(id="P24-replacement-not-forgotten", property="P24",
  needs="the phrase replacement file is removed and later restored with its old time",
  breaks="the time of the removed replacement file is remembered, so the restored file is not used",
  edits=[("src/LanguageModelLoader.cpp", """      lm_->setPhraseReplacementEnabled(false);
      // Reset the timestamp.
      phrasesReplacementPath_.checkTimestamp();
""", """      lm_->setPhraseReplacementEnabled(false);
""")],
  env="", demo=LOADER + '''int main() {
  Dir d;
  std::string p = d.dir + "/phrases-replacement.txt";
  put(p, "x y\\n");
  auto t = fs::last_write_time(p);
  LanguageModelLoader l(std::make_unique<LS>());
  auto lm = std::dynamic_pointer_cast<McBopomofoLM>(l.getLM());
  CHECK(lm->phraseReplacementEnabled());
  fs::rename(p, d.root + "/away");
  l.reloadUserModelsIfNeeded();
  CHECK(!lm->phraseReplacementEnabled());
  fs::rename(d.root + "/away", p);
  fs::last_write_time(p, t);
  l.reloadUserModelsIfNeeded();
  CHECK(lm->phraseReplacementEnabled());
  return failures != 0;
}
'''),
 dict(id="P25-tail-of-address-lost", property="P25",
  needs="a dictionary service whose address continues after the marked place",
  breaks="what follows the marked place in a service's address is dropped",
  edits=[("src/DictionaryService.cpp", "      url.replace(pos, encoded.length(), urlEncode(phrase));", "      url.replace(pos, std::string::npos, urlEncode(phrase));")],
  env="ENGINE=1\nASAN=1", demo=RECORD + '''#include "eng.h"
#include "DictionaryService.h"
int main() {
  Demo d;
  d.put(d.root + "/share/fcitx5/data/mcbopomofo-dictionary-service.json",
        "{\\"services\\":[{\\"name\\":\\"D\\",\\"url_template\\":\\"http://127.0.0.1:9/?q=(encoded)&l=zh\\"}]}");
  McBopomofo::DictionaryServices s;
  s.load();
  s.lookup("x", 1, nullptr, [](std::unique_ptr<McBopomofo::InputState>) {});
  CHECK(started.size() == 1 && started[0].size() == 2 && started[0][1] == "http://127.0.0.1:9/?q=x&l=zh");
  return failures != 0;
}
'''),
 dict(id="P25-newest-service-first", property="P25",
  needs="a dictionary menu with more than one web service",
  breaks="the menu lists the services in another order than the one they are opened by",
  edits=[("src/DictionaryService.cpp", """  for (const auto& service : services_) {
    std::string item = service->textForMenu(phrase);
    menu.emplace_back(item);
  }""", """  for (auto it = services_.rbegin(); it != services_.rend(); ++it) {
    std::string item = (*it)->textForMenu(phrase);
    menu.insert(menu.size() > 1 ? menu.begin() + 1 : menu.begin(), item);
  }""")],
  demo='''#include "eng.h"
#include "DictionaryService.h"
int main() {
  Demo d;
  d.put(d.root + "/share/fcitx5/data/mcbopomofo-dictionary-service.json",
        "{\\"services\\":[{\\"name\\":\\"D1\\",\\"url_template\\":\\"u1\\"},{\\"name\\":\\"D2\\",\\"url_template\\":\\"u2\\"}]}");
  McBopomofo::DictionaryServices s;
  s.load();
  auto m = s.menuForPhrase("x");
  CHECK(m.size() == 3 && m[1].find("D1") != std::string::npos && m[2].find("D2") != std::string::npos);
  return failures != 0;
}
'''),
 dict(id="P27-replacement-views-kept", property="P27",
  needs="a phrase replacement map that is closed (its file replaced by an unreadable one)",
  breaks="closing the replacement map keeps views into the unmapped file",
  edits=[(E_ + "PhraseReplacementMap.cpp", """  keyValueMap_.clear();
  mmapedFile_.close();""", """  if (mmapedFile_.data() == nullptr) {
    keyValueMap_.clear();
  }
  mmapedFile_.close();""")],
  env="", demo='''#include "PhraseReplacementMap.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
using namespace McBopomofo;
int main() {
  char t[] = "/tmp/mcbdemoXXXXXX";
  int fd = mkstemp(t);
  if (write(fd, "x y\\n", 4) != 4) return 2;
  close(fd);
  PhraseReplacementMap m;
  m.open(t);
  m.close();
  unlink(t);
  return m.valueForKey("x").empty() ? 0 : 1;
}
'''),
 dict(id="P28-relax-keeps-first", property="P28",
  needs="a sentence in which the first way found to a phrase is worse than a later one",
  breaks="the first way to a phrase is kept unless a later one is better by more than a rounding margin",
  edits=[(G, "  if (v->distance < u->distance + w) {", "  if (v->distance + 0.01 < u->distance + w) {")],
  env="", demo=GH + '''int main() {
  auto lm = std::make_shared<LM>();
  lm->add("a", "A", -1); lm->add("b", "B", -1); lm->add("c", "C", -1);
  lm->add("a-b", "AB", -2.005); lm->add("b-c", "BC", -2.005);
  lm->add("a-b-c", "ABC", -3.005);
  ReadingGrid g(lm);
  g.setReadingSeparator("-");
  g.insertReading("a"); g.insertReading("b"); g.insertReading("c");
  CHECK(text(g) == "A/B/C/");
  return failures != 0;
}
'''),
 dict(id="P28-long-pairs-skipped", property="P28",
  needs="a sentence best read as two phrases of five or six readings after each other",
  breaks="two long phrases directly after each other are never considered together",
  edits=[(G, """      for (Vertex& nv : vspans[nextVertexPos]) {
        v.edges.push_back(&nv);
        ++edges;
      }""", """      for (Vertex& nv : vspans[nextVertexPos]) {
        if (v.node->spanningLength() > 4 && nv.node->spanningLength() > 4) {
          continue;
        }
        v.edges.push_back(&nv);
        ++edges;
      }""")],
  env="", demo=GH + '''int main() {
  auto lm = std::make_shared<LM>();
  lm->add("a", "A", -9); lm->add("a-a-a-a-a", "AAAAA", -1);
  ReadingGrid g(lm);
  g.setReadingSeparator("-");
  for (int i = 0; i < 10; ++i) g.insertReading("a");
  CHECK(text(g) == "AAAAA/AAAAA/");
  return failures != 0;
}
'''),
 dict(id="P33-longer-pin-kept", property="P33",
  needs="choosing a phrase that runs into the beginning of a longer phrase chosen before",
  breaks="the longer phrase stays pinned although its beginning was taken by the new choice",
  edits=[(G, "      if (nis.node != overridden.node) {\n        nis.node->reset();", """      bool runsOn = nis.spanIndex > overridden.spanIndex &&
                    nis.node->spanningLength() >
                        overridden.node->spanningLength();
      if (nis.node != overridden.node && !runsOn) {
        nis.node->reset();""")],
  env="", demo=GH + """int main() {
  auto lm = std::make_shared<LM>();
  for (const char* x : {"a", "b", "c", "d"}) lm->add(x, x, -1);
  lm->add("b-c-d", "BCD", -9); lm->add("a-b", "AB", -9);
  ReadingGrid g(lm);
  g.setReadingSeparator("-");
  for (const char* x : {"a", "b", "c", "d"}) g.insertReading(x);
  CHECK(g.overrideCandidate(1, ReadingGrid::Candidate("b-c-d", "BCD")));
  CHECK(text(g) == "a/BCD/");
  CHECK(g.overrideCandidate(0, ReadingGrid::Candidate("a-b", "AB")));
  CHECK(text(g) == "AB/c/d/");
  CHECK(g.overrideCandidate(0, ReadingGrid::Candidate("a", "a")));
  CHECK(text(g) == "a/b/c/d/");
  return failures != 0;
}
"""),
]
