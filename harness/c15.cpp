// C15: failing directories and catalogs.
#include "mgr.hpp"

namespace vf {
const char* const property_id = "C15";
void harness_init() { default_step_budget = 200000000; }
void harness_done() {}

typedef tinygettext::Dictionary Dict;

struct Cat { std::string dir, name, body; std::vector<std::pair<Entry, size_t>> entries; /* end offset */ bool bad_charset = false; };
struct World {
  std::vector<std::string> dirs;                       // by priority
  std::map<std::string, std::map<std::string, Cat>> cats;  // directory -> name -> catalog
};
struct Site { std::string path; Fault f; long param; bool charset; };

static World make_world(Rng& rng, int ndirs) {
  World w;
  std::string rule = rng.chance(30) ? "" : plural_rules[rng.below(n_plural_rules)];
  int ruled = rng.pick(std::vector<int>{100, 100, 50, 10});
  for (int i = 0; i < ndirs; ++i) {
    std::string d = "dir" + std::to_string(i);
    w.dirs.push_back(d);
    for (const char* n : {"de.po", "de_AT.po"}) {
      if (rng.chance(10)) continue;
      Cat c; c.dir = d; c.name = n;
      Layout l = random_layout(rng);
      PoWriter p(rng, l);
      p.put_entry(header_entry(rng, "UTF-8", rng.chance(ruled) ? rule : "")); p.put_separator();
      CatOpt o; o.tag = d + "/" + n; o.max_messages = 7; o.ids = 4;
      std::vector<Entry> es = random_entries(rng, o);
      for (int u = 0; u < 2; ++u) {      // messages found in this catalog only
        Entry e; e.id = units("only:" + d + "/" + n + ":" + std::to_string(u)); e.strs.emplace_back(0, units("text of " + d + "/" + n)); es.insert(es.begin() + static_cast<long>(rng.below(static_cast<uint32_t>(es.size() + 1))), e);
      }
      for (auto& e : es) { p.put_entry(e); c.entries.emplace_back(e, p.out.size()); p.put_separator(); }
      c.body = p.finish();
      w.cats[d][n] = c;
    }
  }
  return w;
}

// fault sites of a world; offsets per catalog from a fixed list of fractions
static std::vector<Site> sites_of(const World& w) {
  std::vector<Site> r;
  for (auto& d : w.dirs) { r.push_back({d, Fault::list_throw, 0, false}); r.push_back({d, Fault::list_throw, 1, false}); r.push_back({d, Fault::list_throw, 2, false}); }
  for (auto& d : w.cats) for (auto& c : d.second) {
    std::string p = d.first + "/" + c.first;
    r.push_back({p, Fault::open_null, 0, false});
    r.push_back({p, Fault::open_throw, 0, false});
    r.push_back({p, Fault::open_failed_stream, 0, false});
    r.push_back({p, Fault::none, 0, true});
    long n = static_cast<long>(c.second.body.size());
    for (long f : {0l, 1l, n / 4, n / 2, n * 3 / 4, n - 8}) r.push_back({p, Fault::read_throw, f, false});
  }
  return r;
}

static std::shared_ptr<MemData> fs_of(const World& w, Rng& rng) {
  auto data = std::make_shared<MemData>();
  for (auto& d : w.dirs) {
    auto& v = data->dirs[d];
    auto it = w.cats.find(d);
    if (it != w.cats.end()) for (auto& c : it->second) v.emplace_back(c.first, c.second.body);
    if (rng.chance(50)) v.emplace_back("fr.po", "msgid \"only:fr\"\nmsgstr \"x\"\n");
    rng.shuffle(v);
  }
  data->chunk = rng.chance(30) ? 1 : rng.chance(50) ? 64 : 1 << 16;
  return data;
}

static const Cat* used(const World& w, const std::string& d, const std::string& lang) {
  auto it = w.cats.find(d);
  if (it == w.cats.end()) return nullptr;
  auto a = it->second.find(lang + ".po");
  if (a != it->second.end()) return &a->second;
  return it->second.empty() ? nullptr : &it->second.begin()->second;    // the only other one also matches
}

struct Allowed { std::map<MsgKey, std::vector<Strs>> values; std::map<MsgKey, bool> may_miss; };
// what the dictionary of lang may hold: required values where every better source is healthy
static Allowed allowed(const World& w, const MemData& data, const std::string& lang, const std::set<std::string>& bad_charset) {
  Allowed r;
  std::set<MsgKey> all;
  for (auto& d : w.cats) for (auto& c : d.second) for (auto& e : c.second.entries) all.insert(e.first.key());
  for (auto& k : all) {
    bool sure = false;
    for (auto& d : w.dirs) {
      const Cat* c = used(w, d, lang);
      if (!c) continue;
      std::string p = d + "/" + c->name;
      auto f = data.faults.find(p);
      auto fd = data.faults.find(d);
      bool list_bad = fd != data.faults.end();
      bool dead = bad_charset.count(p) || (f != data.faults.end() && f->second.first != Fault::read_throw);
      if (dead) continue;
      for (auto& e : c->entries) {
        if (!(e.first.key() == k)) continue;
        Strs v; e.first.stored(v);
        if (f != data.faults.end()) {
          if (static_cast<long>(e.second) - 2 <= f->second.second) r.values[k].push_back(v);   // may have been read in time
        } else { r.values[k].push_back(v); if (!list_bad) sure = true; }
      }
      if (sure) break;
    }
    r.may_miss[k] = !sure;
  }
  return r;
}

static bool check_dump(const Allowed& a, Dict& d, const std::string& what, const std::string& key) {
  Msgs got = dump(d);
  for (auto& g : got) {
    auto it = a.values.find(g.first);
    bool ok = it != a.values.end() && std::find(it->second.begin(), it->second.end(), g.second) != it->second.end();
    if (!ok) { fail(key + (it == a.values.end() ? "-invented" : "-altered"), what + ": " + show(g.first) + " -> " + show(g.second) + " is not what a healthy catalog or the part read before the failure holds"); return false; }
  }
  for (auto& m : a.may_miss)
    if (!m.second && !got.count(m.first)) { fail(key + "-lost", what + ": " + show(m.first) + " of a healthy directory is missing"); return false; }
  count("messages_checked", a.may_miss.size());
  return true;
}

// lookups of the regional dictionary that must be answered by the base language
static void check_fallback(const Allowed& own, const std::vector<Allowed>& base, Dict& d, const std::string& what, const std::string& key) {
  Msgs has = dump(d);
  for (auto& m : own.may_miss) {
    bool only = m.first.id.compare(0, 4, "only") == 0;       // those are never plural
    if (has.count(m.first) || (!only && kind_plural(m.first))) continue;
    std::string got = lookup(d, m.first);
    bool ok = false;
    for (auto& b : base) {
      auto v = b.values.find(m.first);
      if (v != b.values.end()) for (auto& s : v->second) if (s[0] == got) ok = true;
      auto mm = b.may_miss.find(m.first);
      if ((mm == b.may_miss.end() || mm->second) && got == m.first.id) ok = true;
    }
    if (!ok) { fail(key + "-fallback", what + ": " + show(m.first) + " gives " + quote(got) + ", not what the base language holds"); return; }
    count("fallback_lookups");
  }
}

void run_case(uint64_t index, Rng& rng) {
  LogScope log;
  // the first cases enumerate all single and paired faults of a fixed world; the rest is random
  const int world_dirs = 3;
  Rng fixed(opt.seed * 77 + 5);
  World w = make_world(fixed, world_dirs);
  std::vector<Site> sites = sites_of(w);
  std::vector<Site> chosen;
  size_t n = sites.size();
  std::string lang = index & 1 ? "de_AT" : "de";
  uint64_t e = index / 2;
  if (e < n) { chosen.push_back(sites[e]); count("single_faults_enumerated"); }
  else if (e < n + n * (n - 1) / 2) {
    uint64_t k = e - n; size_t a = 0;
    while (k >= n - 1 - a) { k -= n - 1 - a; ++a; }
    chosen.push_back(sites[a]); chosen.push_back(sites[a + 1 + k]);
    count("fault_pairs_enumerated");
  } else {
    int ndirs = rng.sized(1, 5, 40, 60);
    w = make_world(rng, ndirs);
    sites = sites_of(w);
    for (int f = ndirs > 5 ? rng.range(0, ndirs) : rng.sized(0, 4, 10, 100); f > 0; --f) {
      Site s = sites[rng.below(static_cast<uint32_t>(sites.size()))];
      if (s.f == Fault::read_throw) { size_t sl = s.path.rfind('/'); s.param = static_cast<long>(rng.below(static_cast<uint32_t>(w.cats[s.path.substr(0, sl)][s.path.substr(sl + 1)].body.size() + 1))); }
      chosen.push_back(s);
    }
    count("random_fault_sets");
    count("random_faults", chosen.size());
  }
  auto data = fs_of(w, rng);
  std::set<std::string> bad_charset;
  std::string desc = "language " + lang + "\n";
  bool list_fault = false, file_fault = false;
  for (auto& s : chosen) {
    if (s.charset) {
      if (data->faults.count(s.path)) continue;
      bad_charset.insert(s.path); file_fault = true;
      for (auto& d : data->dirs) for (auto& f : d.second) if (d.first + "/" + f.first == s.path) f.second = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=X-NONSENSE-7\\n\"\n\n" + f.second.substr(f.second.compare(0, 3, "\xef\xbb\xbf") == 0 ? 3 : 0);
      desc += "unsupported charset in " + s.path + "\n";
    } else {
      if (bad_charset.count(s.path) || data->faults.count(s.path)) continue;
      data->faults[s.path] = {s.f, s.param};
      (s.f == Fault::list_throw ? list_fault : file_fault) = true;
      desc += std::string(fault_name(s.f)) + " " + std::to_string(s.param) + " " + s.path + "\n";
    }
  }
  describe(desc + show_fs(*data));
  if (index % 500 == 0) sample(desc);
  std::unique_ptr<tinygettext::DictionaryManager> m(new tinygettext::DictionaryManager(std::unique_ptr<tinygettext::FileSystem>(new MemFS(data))));
  for (auto& d : w.dirs) m->add_directory(d);
  std::map<std::string, bool> threw;           // language -> last request threw
  std::vector<Allowed> base_seen;              // what the base language may have been loaded as
  auto request = [&](const std::string& l, bool by_set) -> Dict* {
    log.clear();
    data->fired.clear();
    threw[l] = false;
    try {
      tinygettext::Language L = lang_of(l);
      if (by_set) { m->set_language(L); return &m->get_dictionary(); }
      return &m->get_dictionary(L);
    } catch (std::exception& x) {
      threw[l] = true;
      bool lf = false;
      for (auto& f : data->fired) if (f.second == Fault::list_throw) lf = true;
      if (!lf) fail("exception-escaped", "request of " + l + " threw " + x.what() + " although every directory could be listed");
      count("exceptions_reported");
      return nullptr;
    } catch (...) {
      fail("non-standard-exception", "request of " + l + " threw something else than a std::exception");
      threw[l] = true;
      return nullptr;
    }
  };
  auto reports = [&](const std::string& l) {
    for (auto& f : data->fired) {
      count(std::string("fired_") + fault_name(f.second));
      if (f.second == Fault::list_throw) continue;
      if (f.second == Fault::read_throw) {
        // only a failure if the stream really got there
        size_t sl = f.first.rfind('/');
        auto& c = w.cats[f.first.substr(0, sl)][f.first.substr(sl + 1)];
        if (data->faults[f.first].second > static_cast<long>(c.body.size())) continue;
      }
      if (!log.err_mentions(f.first)) fail(std::string("unreported-") + fault_name(f.second), "request of " + l + ": " + fault_name(f.second) + " of " + f.first + " is not in the error log: " + log.err_text());
      count("failures_reported");
    }
    for (auto& p : bad_charset) {
      bool opened = std::find(data->opened.begin(), data->opened.end(), p) != data->opened.end();
      if (opened) { count("unsupported_charsets_opened"); if (!log.err_mentions(p)) fail("unreported-charset", "unsupported charset of " + p + " is not in the error log: " + log.err_text()); }
    }
  };
  auto check = [&](const std::string& l, Dict* d, const std::string& what, bool strict_own, bool strict_base) {
    std::set<std::string> none;
    MemData healthy;
    Allowed own = strict_own ? allowed(w, healthy, l, none) : allowed(w, *data, l, bad_charset);
    check_dump(own, *d, what, strict_own ? "incomplete-after-fault" : "under-fault");
    if (l != "de") {
      std::vector<Allowed> b = base_seen;
      if (strict_base) b.assign(1, allowed(w, healthy, "de", none));
      check_fallback(own, b, *d, what, strict_own ? "incomplete-after-fault" : "under-fault");
    }
  };
  base_seen.push_back(allowed(w, *data, "de", bad_charset));
  // under the faults
  bool by_set = rng.chance(40);
  std::vector<std::string> order = {lang};
  if (rng.chance(50)) order.push_back(lang == "de" ? "de_AT" : "de");
  if (rng.chance(40)) order.push_back(lang);
  std::map<std::string, bool> ever_ok;
  for (auto& l : order) {
    data->opened.clear();
    Dict* d = request(l, by_set);
    if (d) {
      if (!ever_ok[l]) reports(l);
      ever_ok[l] = true;
      // a listing fault that did not lead to an exception: the other directories must be complete
      check(l, d, "request of " + l + " under faults", false, false);
      count("dictionaries_under_fault");
    }
    if (case_failed()) return;
  }
  if (rng.chance(30)) {
    try { m->get_languages(); } catch (std::exception&) { if (!list_fault) fail("languages-exception", "get_languages threw although every directory can be listed"); count("exceptions_reported"); }
  }
  // faults gone
  std::map<std::string, bool> had_thrown = threw;
  data->faults.clear();
  for (auto& d : w.cats) for (auto& c : d.second) for (auto& f : data->dirs[d.first]) if (f.first == c.first) f.second = c.second.body;
  std::set<std::string> none;
  base_seen.push_back(allowed(w, *data, "de", none));
  for (auto& l : {lang, std::string(lang == "de" ? "de_AT" : "de")}) {
    bool was_requested = had_thrown.count(l);
    if (was_requested && !had_thrown[l]) continue;        // cached without an exception: may keep what it read
    if (l == "de" && file_fault && had_thrown.count("de_AT")) continue;   // may have been kept while loading de_AT
    Dict* d = request(l, rng.chance(40));
    if (!d) { if (!case_failed()) fail("throws-after-fault", "request of " + l + " throws although the fault is gone"); return; }
    if (was_requested || !file_fault) {
      check(l, d, "request of " + l + " after the fault went away", true, !file_fault);
      count("complete_after_exception");
    }
  }
  if (rng.chance(50)) {                                   // a reconfiguration also starts from scratch
    m->set_charset("UTF-8");
    for (auto l : {"de_AT", "de"}) { Dict* d = request(l, false); if (d) check(l, d, std::string("request of ") + l + " after reconfiguration", true, true); }
    count("complete_after_reconfiguration");
  }
  m.reset();
  if (live_streams != 0) { fail("stream-leak", std::to_string(live_streams) + " catalog streams are still alive"); live_streams = 0; }
  nontrivial(hash_str(desc + (by_set ? "s" : "") + std::to_string(data->chunk)));
}
} // namespace vf
