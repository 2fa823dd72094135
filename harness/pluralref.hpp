// Independent meaning of Plural-Forms headers: an evaluator of the C subset
// used by gettext, and the list of rules supported at the pinned commit.
#ifndef VF_PLURALREF_HPP
#define VF_PLURALREF_HPP
#include <cstdint>
#include <string>
#include <vector>
namespace vf {

static const char* const plural_rules[] = {
  "Plural-Forms:nplurals=1;plural=0;",
  "Plural-Forms:nplurals=2;plural=(n!=1);",
  "Plural-Forms:nplurals=2;plural=n!=1;",
  "Plural-Forms:nplurals=2;plural=(n>1);",
  "Plural-Forms:nplurals=2;plural=n==1||n%10==1?0:1;",
  "Plural-Forms:nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;",
  "Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);",
  "Plural-Forms:nplurals=3;plural=n==1?0:n==2?1:2;",
  "Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);",
  "Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);",
  "Plural-Forms:nplurals=3;plural=(n==1)?0:(n>=2&&n<=4)?1:2;",
  "Plural-Forms:nplurals=3;plural=(n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);",
  "Plural-Forms:nplurals=3;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);",
  "Plural-Forms:nplurals=3;plural=(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1));",
  "Plural-Forms:nplurals=4;plural=(n%1==0&&n==1?0:n%1==0&&n>=2&&n<=4?1:n%1!=0?2:3);",
  "Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n>=2&&n<=4&&n%1==0)?1:(n%1!=0)?2:3;",
  "Plural-Forms:nplurals=4;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:n%10==0||(n%10>=5&&n%10<=9)||(n%100>=11&&n%100<=14)?2:3);",
  "Plural-Forms:nplurals=4;plural=(n==1||n==11)?0:(n==2||n==12)?1:(n>2&&n<20)?2:3;",
  "Plural-Forms:nplurals=4;plural=(n==1)?0:(n==2)?1:(n!=8&&n!=11)?2:3;",
  "Plural-Forms:nplurals=4;plural=(n%10==1&&(n%100>19||n%100<11)?0:(n%10>=2&&n%10<=9)&&(n%100>19||n%100<11)?1:n%1!=0?2:3);",
  "Plural-Forms:nplurals=4;plural=(n%1==0&&n%10==1&&n%100!=11?0:n%1==0&&n%10>=2&&n%10<=4&&(n%100<12||n%100>14)?1:n%1==0&&(n%10==0||(n%10>=5&&n%10<=9)||(n%100>=11&&n%100<=14))?2:3);",
  "Plural-Forms:nplurals=4;plural=(n==1?0:(n%10>=2&&n%10<=4)&&(n%100<12||n%100>14)?1:n!=1&&(n%10>=0&&n%10<=1)||(n%10>=5&&n%10<=9)||(n%100>=12&&n%100<=14)?2:3);",
  "Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;",
  "Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)",
  "Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5",
};
static const unsigned n_plural_rules = sizeof plural_rules / sizeof *plural_rules;

// nplurals=N; plural=EXPR[;]   (white space already removed or not)
class PluralExpr {
public:
  struct Node { char op; int64_t v; int a, b, c; };
  bool ok = false;
  unsigned nplurals = 0;

  explicit PluralExpr(const std::string& header) {
    std::string s;
    for (char ch : header) if (!(ch == ' ' || (ch >= 9 && ch <= 13))) s += ch;
    const std::string p1 = "Plural-Forms:";
    if (s.compare(0, p1.size(), p1) != 0) return;
    size_t i = s.find("nplurals=");
    if (i == std::string::npos) return;
    i += 9;
    if (i >= s.size() || s[i] < '0' || s[i] > '9') return;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') nplurals = nplurals * 10 + static_cast<unsigned>(s[i++] - '0');
    size_t j = s.find("plural=", i);
    if (j == std::string::npos) return;
    t = s.substr(j + 7);
    while (!t.empty() && t.back() == ';') t.pop_back();
    // one of the supported rules has a closing parenthesis too many
    int depth = 0;
    for (char ch : t) { if (ch == '(') ++depth; if (ch == ')') --depth; }
    while (depth < 0 && !t.empty() && t.back() == ')') { t.pop_back(); ++depth; }
    pos = 0;
    good = true;
    root = cond();
    ok = good && pos == t.size();
  }
  int64_t eval(int64_t n) const { return ev(root, n); }

private:
  std::string t;
  size_t pos = 0;
  bool good = false;
  int root = -1;
  std::vector<Node> nodes;

  int mk(char op, int a = -1, int b = -1, int c = -1, int64_t v = 0) { nodes.push_back({op, v, a, b, c}); return static_cast<int>(nodes.size()) - 1; }
  bool eat(const char* w) { std::string s = w; if (t.compare(pos, s.size(), s) == 0) { pos += s.size(); return true; } return false; }
  int cond() {
    int c = lor();
    if (good && eat("?")) {
      int a = cond();
      if (!eat(":")) { good = false; return c; }
      int b = cond();
      return mk('?', c, a, b);
    }
    return c;
  }
  int lor() { int a = land(); while (good && eat("||")) a = mk('|', a, land()); return a; }
  int land() { int a = eq(); while (good && eat("&&")) a = mk('&', a, eq()); return a; }
  int eq() {
    int a = rel();
    while (good) { if (eat("==")) a = mk('=', a, rel()); else if (eat("!=")) a = mk('!', a, rel()); else break; }
    return a;
  }
  int rel() {
    int a = add();
    while (good) {
      if (eat("<=")) a = mk('l', a, add()); else if (eat(">=")) a = mk('g', a, add());
      else if (eat("<")) a = mk('<', a, add()); else if (eat(">")) a = mk('>', a, add()); else break;
    }
    return a;
  }
  int add() { int a = mul(); while (good) { if (eat("+")) a = mk('+', a, mul()); else if (eat("-")) a = mk('-', a, mul()); else break; } return a; }
  int mul() {
    int a = prim();
    while (good) { if (eat("*")) a = mk('*', a, prim()); else if (eat("/")) a = mk('/', a, prim()); else if (eat("%")) a = mk('%', a, prim()); else break; }
    return a;
  }
  int prim() {
    if (eat("(")) { int a = cond(); if (!eat(")")) good = false; return a; }
    if (pos < t.size() && t[pos] == '!' && !(pos + 1 < t.size() && t[pos + 1] == '=')) { ++pos; return mk('~', prim()); }
    if (eat("n")) return mk('n');
    if (pos < t.size() && t[pos] >= '0' && t[pos] <= '9') {
      int64_t v = 0;
      while (pos < t.size() && t[pos] >= '0' && t[pos] <= '9' && v < 1000000000) v = v * 10 + (t[pos++] - '0');
      return mk('c', -1, -1, -1, v);
    }
    good = false;
    return mk('c');
  }
  int64_t ev(int i, int64_t n) const {
    const Node& x = nodes[static_cast<size_t>(i)];
    switch (x.op) {
      case 'n': return n;
      case 'c': return x.v;
      case '?': return ev(x.a, n) ? ev(x.b, n) : ev(x.c, n);
      case '|': return ev(x.a, n) || ev(x.b, n);
      case '&': return ev(x.a, n) && ev(x.b, n);
      case '=': return ev(x.a, n) == ev(x.b, n);
      case '!': return ev(x.a, n) != ev(x.b, n);
      case 'l': return ev(x.a, n) <= ev(x.b, n);
      case 'g': return ev(x.a, n) >= ev(x.b, n);
      case '<': return ev(x.a, n) < ev(x.b, n);
      case '>': return ev(x.a, n) > ev(x.b, n);
      case '+': return ev(x.a, n) + ev(x.b, n);
      case '-': return ev(x.a, n) - ev(x.b, n);
      case '*': return ev(x.a, n) * ev(x.b, n);
      case '/': { int64_t d = ev(x.b, n); return d ? ev(x.a, n) / d : 0; }
      case '%': { int64_t d = ev(x.b, n); return d ? ev(x.a, n) % d : 0; }
      case '~': return !ev(x.a, n);
    }
    return 0;
  }
};

} // namespace vf
#endif
