/* Expands polynomial DAGs into sums of monomials, reducing v^2 -> def for the
   variables given by R lines.  in: DAG lines; out: one line per G line. */
#include <gmpxx.h>
#include <string>
#include <vector>
#include <unordered_map>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
using namespace std;
typedef u16string Mono;
typedef unordered_map<Mono, mpq_class> Poly;
struct Node { char op; int a, b; mpq_class c; int refs; };
static vector<Node> N; static unordered_map<int, Poly> memo; static unordered_map<int, int> red; static long CAP = 200000, WORK = 0, WCAP = 30000000;
struct Over {};
static const Poly &poly(int i);
static Mono mul(const Mono &a, const Mono &b) { if (a.empty()) return b; if (b.empty()) return a; Mono r; r.resize(a.size() + b.size()); merge(a.begin(), a.end(), b.begin(), b.end(), r.begin()); return r; }
static void addm(Poly &p, const Mono &m, const mpq_class &c) {
  if (++WORK > WCAP) throw Over();
  if (!red.empty()) for (size_t i = 0; i + 1 < m.size(); i++) if (m[i] == m[i + 1]) { auto it = red.find(m[i]); if (it != red.end()) { Mono r = m; r.erase(i, 2); const Poly &d = poly(it->second); vector<pair<Mono, mpq_class>> t(d.begin(), d.end()); for (auto &x : t) addm(p, mul(r, x.first), c * x.second); return; } }
  auto it = p.find(m); if (it == p.end()) { if ((long)p.size() > CAP) throw Over(); p.emplace(m, c); } else { it->second += c; if (it->second == 0) p.erase(it); } }
static void addto(Poly &p, int i, const mpq_class &c, int top) {
  vector<pair<int, mpq_class>> st; st.push_back({i, c}); bool first = true;
  while (!st.empty()) { auto e = st.back(); st.pop_back(); Node &n = N[e.first]; const mpq_class &k = e.second; bool open = (top && first) || n.refs <= 1; first = false;
    if (k == 0) continue;
    if (n.op == 'C') { addm(p, Mono(), k * n.c); continue; }
    if (n.op == 'V') { addm(p, Mono(1, (char16_t)n.a), k); continue; }
    if (open) { if (n.op == '+') { st.push_back({n.a, k}); st.push_back({n.b, k}); continue; }
      if (n.op == '-') { st.push_back({n.a, k}); st.push_back({n.b, -k}); continue; }
      if (n.op == 'n') { st.push_back({n.a, -k}); continue; }
      if (n.op == '*') { if (N[n.a].op == 'C') { st.push_back({n.b, k * N[n.a].c}); continue; } if (N[n.b].op == 'C') { st.push_back({n.a, k * N[n.b].c}); continue; }
        const Poly &a = poly(n.a); const Poly &b = poly(n.b); for (auto &x : a) for (auto &y : b) addm(p, mul(x.first, y.first), k * x.second * y.second); continue; } }
    const Poly &a = poly(e.first); for (auto &x : a) addm(p, x.first, k * x.second); } }
static int depth = 0;
static const Poly &poly(int i) { auto it = memo.find(i); if (it != memo.end()) return it->second; if (++depth > 20000) throw Over(); Poly p; addto(p, i, 1, 1); depth--; return memo.emplace(i, move(p)).first->second; }
static string q2s(const mpq_class &q) { mpz_class n = abs(q.get_num()); string s = q.get_den() == 1 ? n.get_str() + ".0" : "(/ " + n.get_str() + ".0 " + q.get_den().get_str() + ".0)"; return q < 0 ? "(- " + s + ")" : s; }
int main(int argc, char **argv) {
  if (argc > 1) CAP = atol(argv[1]); if (argc > 2) WCAP = atol(argv[2]); long w0 = WCAP;
  vector<int> goals; vector<pair<int,int>> reds; string l; 
  while (getline(cin, l)) { istringstream s(l); char op; int id; s >> op >> id; if (op == 'G') { goals.push_back(id); continue; } if (op == 'R') { int d; s >> d; reds.push_back({id, d}); continue; }
    if ((int)N.size() <= id) N.resize(id + 1); Node &n = N[id]; n.op = op; n.a = n.b = -1; if (op == 'C') { string q; s >> q; n.c = mpq_class(q); n.c.canonicalize(); } else if (op == 'V') s >> n.a; else { s >> n.a; if (op != 'n') s >> n.b; } }
  for (auto &n : N) n.refs = 0; for (auto &n : N) if (n.op && n.op != 'V' && n.op != 'C') { N[n.a].refs++; if (n.b >= 0) N[n.b].refs++; }
  for (auto &r : reds) red[r.first] = r.second;
  for (int g : goals) { try { WORK = 0; WCAP = w0; depth = 0; const Poly &p = poly(g); if (p.empty()) { puts("0.0"); continue; } vector<const Poly::value_type *> v; for (auto &x : p) v.push_back(&x); sort(v.begin(), v.end(), [](const Poly::value_type *a, const Poly::value_type *b) { return a->first < b->first; });
      string o = v.size() > 1 ? "(+" : ""; for (auto *x : v) { if (v.size() > 1) o += " "; if (x->first.empty()) { o += q2s(x->second); continue; } if (x->second == 1 && x->first.size() == 1) { o += "v" + to_string((int)x->first[0]); continue; } o += "(*"; if (x->second != 1) o += " " + q2s(x->second); for (char16_t c : x->first) o += " v" + to_string((int)c); o += ")"; } if (v.size() > 1) o += ")"; puts(o.c_str()); }
    catch (Over &) { puts("X"); } }
  return 0; }
