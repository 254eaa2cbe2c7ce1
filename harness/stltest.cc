#include "lib.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <functional>
#include <deque>
#include <list>
#include <array>
#include <atomic>
#include <mutex>
#include <memory>
#include <algorithm>
#include <numeric>
#include <tuple>
#include <cstdarg>
extern "C" void vp_main()
{
  int w = vp_cfg ("what", 0); float x = vp_lit (0, 0);
  switch (w)
    {
    case 0: { std::map<int, float> m; for (int i = 0; i < 20; i++) m[(i * 7) % 20] = x + i; m.erase (3); float s = 0; for (auto& k : m) s += k.second; vp_assert (m.size() == 19 && m.count (4) && !m.count (3), "map", 0); break; }
    case 1: { std::unordered_map<int, std::vector<float>> m; for (int i = 0; i < 40; i++) m[i * 13].push_back (x); vp_assert (m.size() == 40 && m.find (13) != m.end(), "umap", 0); break; }
    case 2: { std::string s = "abc"; s += "def"; s += std::to_string (42); vp_assert (s == "abcdef42" && s.size() == 8 && s.find ("de") == 3, "string", 0); std::string l (100, 'x'); l += s; vp_assert (l.size() == 108, "string2", 0); break; }
    case 3: { std::function<float (float)> f = [&] (float y) { return x * y; }; vp_same (f (2), x * 2, "function", 0); auto p = std::make_shared<std::vector<float>> (5, x); auto q = p; vp_assert (p.use_count() == 2, "shared", 0); q.reset(); std::weak_ptr<std::vector<float>> wp = p; vp_assert (!wp.expired(), "weak", 0); break; }
    case 4: { std::deque<float> d; for (int i = 0; i < 300; i++) { d.push_back (x + i); if (i > 20) d.pop_front(); } std::list<int> l; l.push_back (3); l.push_front (1); vp_assert (d.size() == 21 && l.size() == 2, "deque", 0); break; }
    case 5: { static std::atomic<int> a {3}; a++; a.fetch_add (4); int e = 8; vp_assert (a.compare_exchange_strong (e, 9) && a.load() == 9 && a.exchange (1) == 9, "atomic", 0); static std::mutex m; { std::lock_guard<std::mutex> g (m); } static std::once_flag o; std::call_once (o, [&] { a = 77; }); vp_assert (a == 77, "once", 0); break; }
    case 6: { std::vector<int> v = {3, 1, 2, 9, 4, 7, 5, 0, 8, 6, 20, 14, 12, 13, 19, 18, 17, 16, 15, 10, 11}; std::sort (v.begin(), v.end()); std::array<float, 4> a {{1, 2, 3, 4}}; vp_assert (v[20] == 20 && v[0] == 0 && std::accumulate (v.begin(), v.end(), 0) == 210, "sort", 0); vp_same (std::inner_product (a.begin(), a.end(), a.begin(), 0.f), 30, "inner", 0); std::vector<float> f (10, x); std::rotate (f.begin(), f.begin() + 3, f.end()); std::reverse (f.begin(), f.end()); break; }
    case 7: { std::set<std::string> s; s.insert ("b"); s.insert ("a"); s.insert ("a"); vp_assert (s.size() == 2 && *s.begin() == "a", "set", 0); std::map<std::pair<int, int>, int> m; m[{1, 2}] = 3; vp_assert (m[std::make_pair (1, 2)] == 3, "pair", 0); break; }
    case 8: { thread_local std::vector<float> t; t.resize (100); t[5] = x; vp_same (t[5], x, "tls", 0); std::unique_ptr<float[]> p (new float[30]()); vp_same (p[4], 0, "uptr", 0); break; }
    case 9: { std::unordered_map<std::string, int> m; m["abc"] = 3; m["def"] = 4; vp_assert (m["abc"] == 3, "usmap", 0); break; }
    case 11: { char b[40]; snprintf (b, 40, "%d-%s", 5, "abc"); vp_assert (!strcmp (b, "5-abc"), "snprintf", 0); break; }
    case 12: { try { std::vector<int> v; v.at (3); vp_assert (0, "at", 0); } catch (std::out_of_range&) {} try { throw std::runtime_error ("x"); } catch (std::exception&) {} break; }
    }
  vp_reach ("end");
}
