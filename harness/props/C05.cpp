// C05: normalised and exact under any history of operations
#include "../lib.hpp"
#include <algorithm>
#include <cstring>
#include <deque>
#include "datetime_read.hpp"
using namespace lib;
namespace {
constexpr i64 MLO = -4000000000000000000LL, MHI = 4000000000000000000LL;   // any day number; calendar views within the calendar's range
constexpr i64 AMAX = INT64_MAX - 2 * model::DAYUS;
Param P_amount(const char* n) {
  return Param{n, -AMAX, AMAX, {0, 1, -1, 999, 1000, 86399, 86400, 86401, -86399, -86400, -86401, 86399999, 86400000, 86400001, -86400000, -86400001,
    86399999999, 86400000000, 86400000001, -86399999999, -86400000000, -86400000001, 172800000000, -172800000000, 3600, 43200, AMAX, -AMAX}, 35};
}
// the views of a date-time are those of the instant
template<class S> void check_views(const datetime<S>& t, i128 tot, int r, const char* what) {
  const model::Instant w = model::from_total(tot, r);
  expect_dt(t, w.mjd, w.tod, what);
  REQ(u(t.sec()) >= 0 && u(t.sec()) < DAY[r], "%s: time of day %ld out of range", what, u(t.sec()));
  EQ(t.sec_as_i(), w.tod, "time of day as an integer");
  const auto h = t.as_hmsf();
  const i64 sec = w.tod / FAC[r];
  REQ(u(std::get<0>(h)) == sec / 3600 && u(std::get<1>(h)) == sec / 60 % 60 && u(std::get<2>(h)) == sec % 60 && std::get<3>(h) == w.tod % FAC[r],
      "%s: time of day reads %ld:%ld:%ld+%ld", what, u(std::get<0>(h)), u(std::get<1>(h)), u(std::get<2>(h)), std::get<3>(h));
  if (w.mjd < model::kMinMjd || w.mjd > model::kMaxMjd) return;
  const model::YMD d = model::mjd2ymd(w.mjd);
  const ymd_date g = t.as_ymd();
  REQ(u(g.__year) == d.y && u(g.__month) == d.m && u(g.__dom) == d.d, "%s: calendar date %ld-%ld-%ld, want %lld-%d-%d", what, u(g.__year), u(g.__month), u(g.__dom), static_cast<long long>(d.y), d.m, d.d);
  const ydoy_date n = t.as_ydoy();
  REQ(u(n.__year) == d.y && u(n.__doy) == model::days_before_month(d.y, d.m) + d.d, "%s: year and day-of-year %ld/%ld", what, u(n.__year), u(n.__doy));
}
bool ok(i128 tot, int r) {
  const i128 q = model::floor_div128(tot, DAY[r]);
  return q >= MLO && q <= MHI;
}
// scale an amount by the requested magnitude
i64 scaled(i64 a, i64 mag, int r) {
  switch (mag) {
    case 0: case 1: case 2: return a % (2 * DAY[r] + 2);
    case 3: case 4: case 5: return a % (DAY[r] * 40000);
    case 6: case 7: return a % (DAY[r] * 40000000);
    default: return a;
  }
}
template<class S, class T> void coarse(datetime<S>& t, i64 k, bool add) {
  if (add) t.add_seconds(T(k)); else t.remove_seconds(T(k));
}
}
Prop pbt::make_prop() {
  Prop p{"C05", {}};
  { Sub s;
    s.name = "construct"; s.rule = "the amount is negative or at least one day";
    s.head = {P_res(), P_mjd("mjd", MLO, MHI), P_amount("amount")};
    s.weight = 30;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        const i128 tot = model::total(a[1], a[2], g.r);
        if (!ok(tot, g.r)) { c.label("out of range: skipped"); return; }
        const datetime<S> t{modified_julian_day{a[1]}, S{a[2]}};
        check_views(t, tot, g.r, "construction");
        datetime<S> v{t};
        v.normalize();
        check_views(v, tot, g.r, "re-normalised");
        c.nontrivial(a[2] < 0 || a[2] >= DAY[g.r]);
        c.label_if(a[2] < 0, "negative amount");
        c.label_if(a[2] != 0 && a[2] % DAY[g.r] == 0, "whole number of days");
        c.label_if(a[2] < 0 && a[2] % DAY[g.r] == 0, "negative whole number of days");
      });
    };
    p.subs.push_back(s); }
  { Sub s;
    s.name = "history"; s.rule = "at least three operations that change the day";
    s.head = {P_res(), P_mjd("mjd", model::kMinMjd, model::kMaxMjd), P_tod()};
    s.step = {Param{"op", 0, 11}, P_amount("amount"), Param{"mag", 0, 8, {8}, 2}, Param{"days", MLO, MHI, {0, 1, -1, 7, 365, -365, 366}, 50}};
    s.max_steps = 60;
    s.weight = 70;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 tod = a[2] / (1000000 / FAC[r]);
        i128 tot = model::total(a[1], tod, r);
        datetime<S> t = mk<S>(a[1], tod);
        const datetime<S> first{t};
        const i128 tot0 = tot;
        int changes = 0, done = 0;
        for (int i = 0; i < a.nsteps; ++i) {
          const i64 op = a.step(i, 0), amt = scaled(a.step(i, 1), a.step(i, 2), r), days = a.step(i, 2) == 8 ? a.step(i, 3) : a.step(i, 3) % 60000000;
          const i128 before = tot;
          i128 next = tot;
          switch (op) {
            case 0: next = tot + amt; break;
            case 1: next = tot - amt; break;
            case 2: case 3: {
              // an amount in seconds (or milliseconds), scaled so that it fits
              const int q = r ? static_cast<int>(i % r) : 0;
              const i64 k = amt / (FAC[r] / FAC[q]);
              next = op == 2 ? tot + static_cast<i128>(k) * (FAC[r] / FAC[q]) : tot - static_cast<i128>(k) * (FAC[r] / FAC[q]);
              break; }
            case 4: case 5: next = tot + static_cast<i128>(days) * DAY[r] + amt; break;
            case 6: case 7: next = tot + static_cast<i128>(days) * DAY[r] + amt; break;
            case 8: next = tot + static_cast<i128>(days) * DAY[r]; break;
            default: break;
          }
          if (!ok(next, r)) continue;
          tot = next;
          ++done;
          switch (op) {
            case 0: t.add_seconds(S(amt)); break;
            case 1: t.remove_seconds(S(amt)); break;
            case 2: case 3: {
              const int q = r ? static_cast<int>(i % r) : 0;
              const i64 k = amt / (FAC[r] / FAC[q]);
              if constexpr (r == 0) { coarse<S, seconds>(t, k, op == 2); }
              else if constexpr (r == 1) { coarse<S, seconds>(t, k, op == 2); }
              else { if (q == 0) coarse<S, seconds>(t, k, op == 2); else coarse<S, milliseconds>(t, k, op == 2); }
              break; }
            case 4: t += datetime_interval<S>(modified_julian_day{days}, S(amt)); break;
            case 5: { datetime_interval<S> iv(modified_julian_day{days}, S(amt)); iv.normalize(); const datetime_interval<S> iv2{iv}; t += iv2; break; }
            case 6: { const datetime<S> old{t}; t = t.add(modified_julian_day{days}, S(amt)); check_views(old, before, r, "copy made before an addition"); break; }
            case 7: { const datetime<S> n = t.add(modified_julian_day{days}, S(amt)); check_views(t, before, r, "original of add()"); t = n; break; }
            case 8: t = t.add(modified_julian_day{days}, S(0)); break;
            case 9: t.normalize(); break;
            case 10: { datetime<S> o{t}; datetime<S> q; q = o; o.add_seconds(S(1)); t = q; break; }
            default: { // rebuild from the views
              const i128 q = model::floor_div128(tot, DAY[r]);
              if (q < model::kMinMjd || q > model::kMaxMjd) break;
              const ymd_date v = t.as_ymd();
              t = datetime<S>(v.__year, v.__month, v.__dom, t.sec()); break; }
          }
          if (model::floor_div128(before, DAY[r]) != model::floor_div128(tot, DAY[r])) ++changes;
          static const char* const names[] = {"after add_seconds", "after remove_seconds", "after adding a coarser amount", "after removing a coarser amount", "after += interval", "after += interval",
            "after add", "after add", "after adding days", "after normalize", "after copying", "after rebuilding"};
          check_views(t, tot, r, names[op]);
        }
        REQ((t == first) == (tot == tot0) && (t > first) == (tot > tot0), "comparison with the start of the history");
        const i128 span = model::floor_div128(tot, DAY[r]) - model::floor_div128(tot0, DAY[r]);
        if (span * DAY[r] < INT64_MAX - DAY[r] && span * DAY[r] > INT64_MIN + DAY[r]) EQ(u(t.delta_sec(first)), tot - tot0, "difference to the start of the history");
        else c.label("far from the start");
        c.nontrivial(changes >= 3);
        c.label_if(done >= 10, "10 or more operations");
        c.label_if(done < a.nsteps, "some operations out of range");
        c.label_if(done == 0, "no operation");
      });
    };
    p.subs.push_back(s); }
  { Sub s;   // several objects at once
    s.name = "objects"; s.rule = "at least four operations that involve two objects";
    s.head = {P_res(), P_mjd("mjd", model::kMinMjd, model::kMaxMjd), P_tod(), Param{"mjd2", MLO, MHI, P_mjd().pts, 60}};
    s.step = {Param{"op", 0, 18}, Param{"i", 0, 3}, Param{"j", 0, 3}, P_amount("amount"), Param{"mag", 0, 8, {8}, 2}, Param{"days", MLO, MHI, {0, 1, -1, 7, 365, -365, 366}, 50}};
    s.max_steps = 60;
    s.weight = 40;
    s.eval = [](const Args& a, Ctx& c) {
      with_res(a[0], [&](auto g) {
        using S = typename decltype(g)::type;
        constexpr int r = decltype(g)::r;
        const i64 D = DAY[r], tod = a[2] / (1000000 / FAC[r]);
        datetime<S> T[4] = {mk<S>(a[1], tod), mk<S>(a[3], tod), mk<S>(a[1] + 1, 0), mk<S>(a[1] - 1, D - 1)};
        i128 t[4] = {model::total(a[1], tod, r), model::total(a[3], tod, r), model::total(a[1] + 1, 0, r), model::total(a[1] - 1, D - 1, r)};
        datetime_interval<S> V[4];
        i128 v[4] = {0, 0, 0, 0};
        int two = 0;
        for (int k = 0; k < a.nsteps; ++k) {
          const int i = static_cast<int>(a.step(k, 1)), j = static_cast<int>(a.step(k, 2));
          const i64 amt = scaled(a.step(k, 3), a.step(k, 4), r), days = a.step(k, 4) == 8 ? a.step(k, 5) : a.step(k, 5) % 60000000;
          const i128 da = static_cast<i128>(days) * D + amt;
          auto moved = [&](i128 n) { const bool y = ok(n, r); if (y) t[i] = n; return y; };
          switch (a.step(k, 0)) {
            case 0: if (moved(t[i] + amt)) T[i].add_seconds(S(amt)); break;
            case 1: if (moved(t[i] - amt)) T[i].remove_seconds(S(amt)); break;
            case 2: case 3: V[j] = T[i].delta_date(T[(i + j) % 4]); v[j] = t[i] - t[(i + j) % 4]; ++two; break;
            case 4: case 5: if (moved(t[i] + v[j])) { T[i] += V[j]; ++two; } break;
            case 6: if (moved(t[j])) { T[i] = T[j]; ++two; } break;
            case 7: std::swap(T[i], T[j]); std::swap(t[i], t[j]); ++two; break;
            case 8: { datetime<S>& alias = T[i]; T[i] = alias; T[i] = std::move(alias); break; }
            case 9: // as plain memory, when it is
              if constexpr (std::is_trivially_copyable_v<datetime<S>> && std::is_trivially_copyable_v<datetime_interval<S>>) {
                unsigned char m[sizeof(datetime<S>)], n[sizeof(datetime_interval<S>)];
                std::memcpy(m, &T[j], sizeof m); std::memcpy(n, &V[j], sizeof n);
                std::memcpy(&T[i], m, sizeof m); std::memcpy(&V[i], n, sizeof n);
                t[i] = t[j]; v[i] = v[j]; ++two;
              }
              break;
            case 10: { // in containers
              std::vector<datetime<S>> w(T, T + 4);
              w.insert(w.begin() + i, T[j]); w.push_back(w[static_cast<std::size_t>(i)]); w.erase(w.begin() + j);
              std::vector<i128> x(t, t + 4);
              x.insert(x.begin() + i, t[j]); x.push_back(x[static_cast<std::size_t>(i)]); x.erase(x.begin() + j);
              std::sort(w.begin(), w.end()); std::sort(x.begin(), x.end());
              for (int q = 0; q < 4; ++q) { T[q] = w[static_cast<std::size_t>(q)]; t[q] = x[static_cast<std::size_t>(q)]; }
              std::deque<datetime_interval<S>> e(V, V + 4);
              e.push_front(e.back()); e.pop_back(); std::reverse(e.begin(), e.end());
              std::reverse(v, v + 3);
              for (int q = 0; q < 4; ++q) V[q] = e[static_cast<std::size_t>(q)];
              ++two; break; }
            case 11: T[i] = T[i].template cast_to<microseconds>().template cast_to<S>(); break;
            case 12: std::swap(V[i], V[j]); std::swap(v[i], v[j]); break;
            case 13: if (moved(t[j] + da)) { const datetime<S> n = T[j].add(modified_julian_day{days}, S(amt)); T[i] = n; ++two; } break;
            case 14: V[i] = datetime_interval<S>{modified_julian_day{days}, S(amt)}; v[i] = da; break;
            // an operation whose argument is a part of one of the objects
            case 16: { const i128 n = t[i] + u(T[j].sec()); if (moved(n)) { T[i].add_seconds(T[j].sec()); ++two; } break; }
            case 17: { const i128 n = t[i] - u(T[j].sec()); if (moved(n)) { T[i].remove_seconds(T[j].sec()); ++two; } break; }
            case 18: { const i128 n = t[i] + static_cast<i128>(u(V[j].days())) * D + u(T[i].sec()); if (moved(n)) { T[i] = T[i].add(V[j].days(), T[i].sec()); ++two; } break; }
            default: { // through text
              const i128 q = model::floor_div128(t[j], D);
              if (q < -678575 || q > 2973483) break;
              T[i] = strptime_ymd_hms<S>(T[j].stringify().c_str()); t[i] = t[j]; ++two; break; }
          }
          for (int q = 0; q < 4; ++q) {
            const model::Instant w = model::from_total(t[q], r);
            expect_dt(T[q], w.mjd, w.tod, "date-time of several");
            const i128 d = model::floor_div128(v[q], D);
            expect_iv(V[q], static_cast<i64>(d), static_cast<i64>(v[q] - d * D), "interval of several");
          }
          REQ((T[i] < T[j]) == (t[i] < t[j]) && (T[i] == T[j]) == (t[i] == t[j]) && (T[i] >= T[j]) == (t[i] >= t[j]), "order of two of them");
          REQ((V[i] < V[j]) == (v[i] < v[j]) && (V[i] == V[j]) == (v[i] == v[j]) && (V[i] >= V[j]) == (v[i] >= v[j]), "order of two intervals");
        }
        for (int q = 0; q < 4; ++q) check_views(T[q], t[q], r, "one of several, at the end");
        c.nontrivial(two >= 4);
        c.label_if(two >= 10, "10 or more operations of two objects");
      });
    };
    p.subs.push_back(s); }
  return p;
}
