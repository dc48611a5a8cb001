// C15: random key histories of the real KeyHandler over generated language models; compiled with -fno-access-control.
#include <map>
#include <set>
#include "rt.h"
#include "KeyHandler.h"
#include "UTF8Helper.h"
using namespace McBopomofo;
namespace M = Formosa::Mandarin;
typedef std::vector<std::string> VS;
struct LM : McBopomofoLM {
  std::map<std::string, std::vector<Unigram>> m;
  std::vector<Unigram> getUnigrams(const std::string& r) override { auto i = m.find(r); return i == m.end() ? std::vector<Unigram>{} : i->second; }
  bool hasUnigrams(const std::string& r) override { auto i = m.find(r); return i != m.end() && !i->second.empty(); }
};
static std::vector<std::pair<std::string, std::string>> added;
struct Adder : UserPhraseAdder { void addUserPhrase(const std::string_view& r, const std::string_view& p) override { added.emplace_back(r, p); } };
struct LS : KeyHandler::LocalizedStrings {
  std::string cursorIsBetweenSyllables(const std::string& a, const std::string& b) override { return a + "|" + b; }
  std::string syllablesRequired(size_t n) override { return std::to_string(n); }
  std::string syllablesMaximum(size_t n) override { return std::to_string(n); }
  std::string phraseAlreadyExists() override { return "x"; }
  std::string pressEnterToAddThePhrase() override { return "p"; }
  std::string markedWithSyllablesAndStatus(const std::string& a, const std::string& b, const std::string& c) override { return a + b + c; }
};
// a dictionary on the web: opens a page and leaves for the empty state, as HttpBasedDictionaryService does
struct Web : DictionaryService {
  std::string name() const override { return "web"; }
  void lookup(std::string, InputState*, size_t, const StateCallback& cb) override { cb(std::make_unique<InputStates::Empty>()); }
  std::string textForMenu(std::string s) const override { return s; }
};
static VS chars(const std::string& s) {
  VS v; for (size_t i = 0; i < s.size();) { size_t n = 1; unsigned char c = (unsigned char)s[i]; if (c >= 0xf0) n = 4; else if (c >= 0xe0) n = 3; else if (c >= 0xc0) n = 2; v.push_back(s.substr(i, n)); i += n; }
  return v;
}
struct Run {
  std::shared_ptr<LM> lm = std::make_shared<LM>();
  std::shared_ptr<Adder> adder = std::make_shared<Adder>();
  std::unique_ptr<KeyHandler> h;
  std::unique_ptr<InputState> st = std::make_unique<InputStates::Empty>();
  VS rd; std::string d, assoc; const M::BopomofoKeyboardLayout* lay; bool plain = false;
  VS said; int entered = 0; bool pinned = false;
  Run() {
    const VS all = {"\xe3\x84\x85\xe3\x84\x9a", "\xe3\x84\x86\xe3\x84\x98\xcb\x8a", "\xe3\x84\x87\xe3\x84\xa7\xcb\x87", "\xe3\x84\x8b\xe3\x84\xa7\xcb\x87", "\xe3\x84\x8f\xe3\x84\xa0\xcb\x87"};
    const VS han = {"\xe4\xbd\xa0", "\xe5\xa5\xbd", "\xe5\x85\xab", "a", "\xf0\xa0\x80\x80", "\xe7\xb1\xb3"};
    size_t n = 1 + rt::below(4); for (size_t i = 0; i < n; i++) rd.push_back(all[(i + rt::below(2)) % all.size()]);
    auto add = [&](const std::string& r, size_t len) { size_t k = 1 + rt::below(3); auto& v = lm->m[r]; for (size_t i = 0; i < k; i++) { std::string t; size_t L = rt::chance(88) ? len : rt::below(len + 3); for (size_t j = 0; j < L; j++) t += rt::pick(han); v.emplace_back(t, -(double)rt::below(4000) / 256); } };
    for (auto& r : rd) if (!lm->hasUnigrams(r)) add(r, 1);
    for (int len = 2; len <= 6; len++) for (int t = 0; t < 12; t++) { std::string r; for (int k = 0; k < len; k++) r += (k ? "-" : "") + rt::pick(rd); if (rt::chance(50) && !lm->hasUnigrams(r)) add(r, (size_t)len); }
    if (rt::chance(25) && rd.size() > 1) { lm->m[rd.back()].clear(); }
    lm->m[" "].emplace_back(" ", 0);
    for (const char* p : {"_punctuation_,", "_punctuation_Standard_<", "_punctuation_list", "_letter_A", "_letter_Z", "_number_1", "_number_12", "_ctrl_punctuation_,", "_half_punctuation_,"})
      if (rt::chance(70)) { size_t k = rt::chance(50) ? 1 : 3; auto& v = lm->m[p]; for (size_t i = 0; i < k; i++) v.emplace_back(rt::pick(VS{"\xef\xbc\x8c", "\xe3\x80\x82", ",", "A"}), -1.0 - (double)i); }
    // associated phrases of the first characters
    std::vector<std::string> rows;
    for (int i = 0; i < 12; i++) { std::string s; int L = 2 + (int)rt::below(3); for (int k = 0; k < L; k++) s += (k ? "-" : "") + rt::pick(han) + "-" + (rt::chance(85) ? rt::pick(rd) : std::string("\xe3\x84\x91")); rows.push_back(s + " -" + std::to_string(1 + rt::below(9))); }
    std::sort(rows.begin(), rows.end()); for (auto& r : rows) assoc += r + "\n";
    lm->associatedPhrasesV2_.open(std::make_unique<ParselessPhraseDB>(assoc.data(), assoc.size()));
    h = std::make_unique<KeyHandler>(lm, adder, std::make_unique<LS>());
    h->dictionaryServices_->services_.emplace_back(std::make_unique<Web>());
    h->setOnAddNewPhrase([](const std::string&) {});
    auto L = rt::pick(std::vector<const M::BopomofoKeyboardLayout*>{M::BopomofoKeyboardLayout::StandardLayout(), M::BopomofoKeyboardLayout::StandardLayout(), M::BopomofoKeyboardLayout::ETenLayout(), M::BopomofoKeyboardLayout::HsuLayout(), M::BopomofoKeyboardLayout::IBMLayout(), M::BopomofoKeyboardLayout::HanyuPinyinLayout()});
    lay = L; h->setKeyboardLayout(L);
    plain = rt::chance(20); h->setInputMode(plain ? InputMode::PlainBopomofo : InputMode::McBopomofo);
    bool o[6]; for (bool& b : o) b = rt::chance(50);
    h->setSelectPhraseAfterCursorAsCandidate(o[0]); h->setMoveCursorAfterSelection(o[1]); h->setPutLowercaseLettersToComposingBuffer(o[2]); h->setEscKeyClearsEntireComposingBuffer(o[3]);
    h->setAssociatedPhrasesEnabled(o[4]); h->setHalfWidthPunctuationEnabled(o[5]);
    int ce = (int)rt::below(3); h->setCtrlEnterKeyBehavior(ce == 0 ? KeyHandlerCtrlEnter::Disabled : ce == 1 ? KeyHandlerCtrlEnter::OutputBpmfReadings : KeyHandlerCtrlEnter::OutputHTMLRubyText);
    d = "model={"; for (auto& x : lm->m) { d += x.first + ":"; for (auto& u : x.second) d += u.value() + "/" + std::to_string(u.score()).substr(0, 6) + ","; d += ";"; }
    d += "} phrases=" + rt::show(assoc) + " layout=" + (L == M::BopomofoKeyboardLayout::HanyuPinyinLayout() ? "pinyin" : L->name()) + " plain=" + std::to_string(plain) + " selAfter,moveAfter,putLower,escClears,assoc,half="; for (bool b : o) d += b ? "1" : "0"; d += " ctrlEnter=" + std::to_string(ce) + " keys=";
  }
  KeyHandler::StateCallback cb() { return [this](std::unique_ptr<InputState> n) { CHECK(n != nullptr, "a null state is entered"); entered++; if (auto* c = dynamic_cast<InputStates::Committing*>(n.get())) said.push_back(c->text); trash.push_back(std::move(st)); st = std::move(n); }; }
  std::vector<std::unique_ptr<InputState>> trash;   // the front end may still hold the previous state while it handles a key
  // ---- the oracle: what should be shown, from the nodes of the conversion
  std::string whole() { std::string s; for (auto& n : h->latestWalk_.nodes) s += n->currentUnigram().value(); return s; }
  size_t cut(size_t c) {
    size_t at = 0, len = 0;
    for (auto& n : h->latestWalk_.nodes) {
      VS ch = chars(n->currentUnigram().value()); size_t L = n->spanningLength();
      size_t take = c >= at + L ? ch.size() : c <= at ? 0 : std::min(ch.size(), c - at);
      for (size_t i = 0; i < take; i++) len += ch[i].size();
      at += L;
    }
    return len;
  }
  std::string typed() { return h->reading_.composedString(); }
  void shown() {
    auto& g = h->grid_; size_t n = g.readings().size(), c = g.cursor();
    CHECK(c <= n, "the cursor is outside the readings");
    size_t total = 0; for (auto& nd : h->latestWalk_.nodes) total += nd->spanningLength();
    CHECK(total == n, "the conversion covers " + std::to_string(total) + " of " + std::to_string(n) + " readings");
    { size_t at = 0; for (auto& nd : h->latestWalk_.nodes) { std::string r; for (size_t k = 0; k < nd->spanningLength(); k++) r += (k ? "-" : "") + g.readings()[at + k]; CHECK(nd->reading() == r, "a node of the conversion is not at its readings"); at += nd->spanningLength(); } }
    if (!pinned) { double sum = 0, best = 0; for (auto& nd : h->latestWalk_.nodes) sum += nd->score(); auto w = g.walk(); for (auto& nd : w.nodes) best += nd->score(); CHECK(sum == best, "the conversion shown is not the one the grid gives now"); }
    bool live = n > 0 || !h->reading_.isEmpty();
    auto* ne = dynamic_cast<InputStates::NotEmpty*>(st.get());
    CHECK((ne != nullptr) == live, live ? "something is being composed but the state shows nothing" : "nothing is being composed but the state shows a buffer");
    if (ne == nullptr) return;
    std::string w = whole(), hd = w.substr(0, cut(c)), tl = w.substr(cut(c)), r = typed();
    if (auto* m = dynamic_cast<InputStates::Marking*>(ne)) {
      size_t a = std::min(m->markStartGridCursorIndex, c), b = std::max(m->markStartGridCursorIndex, c);
      CHECK(m->markStartGridCursorIndex <= n && a < b, "the marked range");
      CHECK(r.empty() && m->composingBuffer == w, "the buffer while marking is " + rt::show(m->composingBuffer));
      CHECK(m->head + m->markedText + m->tail == w, "head, mark and tail do not give the sentence");
      CHECK(m->head == w.substr(0, cut(a)) && m->tail == w.substr(cut(b)), "the mark is cut at the wrong place: " + rt::show(m->head) + rt::show(m->markedText) + rt::show(m->tail));
      CHECK(m->cursorIndex == cut(c), "cursor while marking");
      std::string rs; for (size_t k = a; k < b; k++) rs += (k > a ? "-" : "") + g.readings()[k];
      CHECK(m->reading == rs, "readings of the mark are " + rt::show(m->reading));
      bool known = false; for (auto& u : lm->getUnigrams(rs)) known = known || u.value() == m->markedText;
      CHECK(m->acceptable == (b - a >= 2 && b - a <= 6 && !known), "acceptable");
      return;
    }
    CHECK(ne->composingBuffer == hd + r + tl, "the buffer shown is " + rt::show(ne->composingBuffer) + ", not " + rt::show(hd + r + tl));
    if (!dynamic_cast<InputStates::SelectingDictionary*>(ne)) CHECK(ne->cursorIndex == hd.size() + r.size(), "cursor shown at " + std::to_string(ne->cursorIndex));
  }
  void note(const std::string& t) { d += t + " "; rt::begin(d); }
  void key(Key k, const std::string& nm) {
    note(nm);
    auto& g = h->grid_; VS r0 = g.readings(); size_t c0 = g.cursor(); bool quiet = h->reading_.isEmpty(); size_t s0 = said.size(), a0 = added.size(); int e0 = entered;
    std::string buf; auto* ne = dynamic_cast<InputStates::NotEmpty*>(st.get()); if (ne) buf = ne->composingBuffer;
    auto* mk = dynamic_cast<InputStates::Marking*>(st.get()); size_t mstart = mk ? mk->markStartGridCursorIndex : c0; bool acc = mk && mk->acceptable; std::string mr = mk ? mk->reading : "", mt = mk ? mk->markedText : "";
    bool cursorable = mk || dynamic_cast<InputStates::Inputting*>(st.get());
    InputState* cur = st.get();
    bool ret = h->handle(k, cur, cb(), [] {});
    trash.clear();
    CHECK(ret || entered == e0, "a key that is let through changes the state");
    const VS& r1 = g.readings();
    if (ne && quiet && k.isCursorKeys() && k.ascii == 0 && cursorable) {
      size_t want = k.name == Key::KeyName::LEFT ? (c0 ? c0 - 1 : 0) : k.name == Key::KeyName::RIGHT ? std::min(c0 + 1, r0.size()) : k.name == Key::KeyName::HOME ? 0 : r0.size();
      CHECK(g.cursor() == want && r1 == r0, "cursor key moves to " + std::to_string(g.cursor()));
      auto* m = dynamic_cast<InputStates::Marking*>(st.get());
      CHECK((m != nullptr) == (k.shiftPressed && want != mstart), "marking starts or stops wrongly");
      if (m) CHECK(m->markStartGridCursorIndex == mstart, "the mark starts elsewhere");
    }
    if (ne && quiet && k.isDeleteKeys()) {
      VS w = r0; size_t c = c0;
      if (k.ascii == Key::BACKSPACE && c0) { w.erase(w.begin() + (long)c0 - 1); c--; } else if (k.ascii == Key::DELETE && c0 < w.size()) w.erase(w.begin() + (long)c0);
      CHECK(r1 == w && (w.empty() || g.cursor() == c), "deleting removes the wrong reading");
    } else if (r1 != r0 && !r1.empty()) {
      CHECK(r1.size() == r0.size() + 1, "a key loses readings");
      VS w = r1; w.erase(w.begin() + (long)c0); CHECK(w == r0, "a key changes other readings");
    }
    if (!plain && ne && !(k.ascii == Key::RETURN && k.ctrlPressed) && !r0.empty() && said.size() > s0) CHECK(said[s0] == buf, "commits " + rt::show(said[s0]) + " while " + rt::show(buf) + " was shown");
    if (ne && quiet && k.ascii == Key::RETURN && !k.shiftPressed && !k.ctrlPressed && !mk) CHECK(ret && said.size() == s0 + 1 && said[s0] == buf && r1.empty(), "Enter does not commit what is shown");
    if (mk && k.ascii == Key::RETURN && !k.shiftPressed && !k.ctrlPressed) { CHECK(added.size() == a0 + (acc ? 1 : 0), "adding the marked phrase"); if (acc) CHECK(added.back().first == mr && added.back().second == mt, "adds another phrase than the marked one"); }
    else CHECK(added.size() == a0, "adds a phrase unasked");
    shown();
  }
  void type(const std::string& r) {
    std::string ks = lay == M::BopomofoKeyboardLayout::HanyuPinyinLayout() ? rt::pick(VS{"ba", "pen2", "fi3", "ni3", "hao3"}) : lay->keySequenceFromSyllable(M::BopomofoSyllable::FromComposedString(r));
    for (char c : ks) key(Key::asciiKey(c), std::string(1, c));
    if (!h->reading_.isEmpty()) key(Key::asciiKey(' '), "space");
  }
  void step() {
    auto* look = dynamic_cast<InputStates::SelectingDictionary*>(st.get());
    if (auto* ch = dynamic_cast<InputStates::ChoosingCandidate*>(st.get()); ch && !plain && !ch->candidates.empty() && rt::chance(8)) {
      note("dictionary"); auto c = ch->candidates[0].value; cb()(h->buildSelectingDictionaryState(std::make_unique<InputStates::ChoosingCandidate>(*ch), c, 0)); trash.clear(); shown(); return;
    }
    if (auto* ci = dynamic_cast<InputStates::ShowingCharInfo*>(st.get())) { note("back"); cb()(std::make_unique<InputStates::SelectingDictionary>(*ci->previousState)); trash.clear(); shown(); return; }
    if (look && rt::chance(70)) {
      size_t i = rt::chance(60) ? 0 : 1 + rt::below(2); note("service" + std::to_string(i)); VS r0 = h->grid_.readings();
      h->dictionaryServiceSelected(look->selectedPhrase, i, look, cb()); trash.clear(); CHECK(h->grid_.readings() == r0 || h->grid_.readings().empty(), "looking up changes the readings"); shown(); return;
    }
    if (look && look->previousState) {
      note("back"); if (auto* c = dynamic_cast<InputStates::ChoosingCandidate*>(look->previousState.get())) cb()(std::make_unique<InputStates::ChoosingCandidate>(*c)); else if (auto* m = dynamic_cast<InputStates::Marking*>(look->previousState.get())) cb()(std::make_unique<InputStates::Marking>(*m)); trash.clear(); shown(); return;
    }
    if (auto* ch = dynamic_cast<InputStates::ChoosingCandidate*>(st.get())) {
      size_t oc = ch->originalCursor;
      if (!ch->candidates.empty() && rt::chance(65)) { auto c = ch->candidates[rt::below(ch->candidates.size())]; note("select(" + c.reading + "," + c.value + ")"); VS r0 = h->grid_.readings(); h->candidateSelected(c, oc, cb()); trash.clear(); if (!plain) CHECK(h->grid_.readings() == r0, "selecting changes the readings"); shown(); return; }
      if (rt::chance(70)) { note("cancel"); VS r0 = h->grid_.readings(); h->candidatePanelCancelled(oc, cb()); trash.clear(); if (!plain) CHECK(h->grid_.readings() == r0 && h->grid_.cursor() == oc, "cancelling changes the composition"); shown(); return; }
    }
    if (auto* ap = dynamic_cast<InputStates::AssociatedPhrases*>(st.get())) {
      if (!ap->candidates.empty() && rt::chance(75)) { auto c = ap->candidates[rt::below(ap->candidates.size())]; size_t ix = ap->prefixCursorIndex; auto pr = ap->prefixReading, pv = ap->prefixValue; pinned = true; note("phrase(" + c.reading + "," + c.value + ")"); size_t n0 = h->grid_.readings().size(); h->candidateAssociatedPhraseSelected(ix, c, pr, pv, cb()); trash.clear(); CHECK(h->grid_.readings().size() >= n0, "an associated phrase loses readings"); shown(); return; }
    }
    size_t k = rt::below(100); bool sh = rt::chance(35), ct = rt::chance(20);
    std::string mod = std::string(sh ? "S-" : "") + (ct ? "C-" : "");
    bool dead = h->grid_.readings().empty() && h->reading_.isEmpty();
    if (dead && k < 6) { note("menu"); if (rt::chance(50)) st = std::make_unique<InputStates::EnclosingNumber>(); else st = std::make_unique<InputStates::ChineseNumber>("", ChineseNumberStyle::LOWER); for (int i = 0; i < 5; i++) { char c = rt::pick(std::vector<char>{'1', '2', '.', '0', 8, 13, '9'}); if (!dynamic_cast<InputStates::EnclosingNumber*>(st.get()) && !dynamic_cast<InputStates::ChineseNumber*>(st.get())) break; key(Key::asciiKey(c), std::to_string((int)c)); } return; }
    if (k < 38) type(rt::pick(rd));
    else if (k < 60) { auto nm = rt::pick(std::vector<Key::KeyName>{Key::KeyName::LEFT, Key::KeyName::LEFT, Key::KeyName::LEFT, Key::KeyName::RIGHT, Key::KeyName::RIGHT, Key::KeyName::HOME, Key::KeyName::END}); key(Key::namedKey(nm, sh), mod + (nm == Key::KeyName::LEFT ? "left" : nm == Key::KeyName::RIGHT ? "right" : nm == Key::KeyName::HOME ? "home" : "end")); }
    else if (k < 68) { bool b = rt::chance(60); key(Key::asciiKey(b ? Key::BACKSPACE : Key::DELETE), b ? "backspace" : "delete"); }
    else if (k < 73) key(Key::asciiKey(Key::RETURN, sh && rt::chance(40), ct), mod + "enter");
    else if (k < 79) key(Key::asciiKey(Key::TAB, sh), mod + "tab");
    else if (k < 83) key(Key::asciiKey(Key::SPACE, sh), mod + "space");
    else if (k < 86) key(Key::namedKey(Key::KeyName::DOWN), "down");
    else if (k < 88) key(Key::asciiKey(Key::ESC), "esc");
    else if (k < 93) { char c = rt::pick(std::vector<char>{',', '<', '`', 'A', 'Z', '?', '1', 'x'}); bool C = ct && c == ','; key(Key::asciiKey(c, false, C), std::string(C ? "C-" : "") + c); }
    else if (k < 98) { char c = (char)(33 + rt::below(94)); key(Key::asciiKey(c), std::string(1, c)); }
    else if (k < 99) key(Key::asciiKey('\\', false, true), "C-\\");
    else key(Key::namedKey(Key::KeyName::UNKNOWN, true), "shift");
  }
};
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) { Run r; added.clear(); r.note("start"); r.shown(); int n = 3 + (int)rt::below(40); for (int i = 0; i < n; i++) r.step(); }
  return rt::done();
}
