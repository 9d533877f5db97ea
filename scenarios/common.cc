#include "common.h"

#include <algorithm>
#include <cstdio>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

namespace cottontail {
addr simulation_limit[SIMULATE_LIMITS] = {8 << 20,   256 << 20, 512 << 20,
                                          64 * 1024, 64 * 1024, 1000000,
                                          1 << 20,   1024};
}

namespace scen {

void default_limits() {
  static const addr d[cottontail::SIMULATE_LIMITS] = {
      8 << 20, 256 << 20, 512 << 20, 64 * 1024, 64 * 1024, 1000000,
      1 << 20, 1024};
  for (int i = 0; i < cottontail::SIMULATE_LIMITS; i++)
    cottontail::simulation_limit[i] = d[i];
}

std::vector<std::string> list_dir(const std::string &dir) {
  std::vector<std::string> names;
  DIR *d = opendir(dir.c_str());
  if (!d)
    return names;
  while (struct dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..")
      names.push_back(n);
  }
  closedir(d);
  std::sort(names.begin(), names.end());
  return names;
}

void separate(std::string *text, const char *s, bool odd) {
  if (odd && s[0] == '\t')
    text->push_back('\0');
  else if (odd && s[0] == ',')
    *text += " \x01\x7f\r";
  text->append(s);
}

bool exists(const std::string &file) { return access(file.c_str(), F_OK) == 0; }

void write_file(const std::string &file, const std::string &text) {
  FILE *f = fopen(file.c_str(), "w");
  if (!f)
    sim::internal("cannot create %s", file.c_str());
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
}

std::string read_file(const std::string &file) {
  std::string s;
  FILE *f = fopen(file.c_str(), "r");
  if (!f)
    return s;
  char buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0)
    s.append(buf, n);
  fclose(f);
  return s;
}

std::vector<Ivl> solutions(cottontail::Hopper *h, int dir) {
  std::vector<Ivl> out;
  addr p, q;
  fval v;
  size_t guard = 0;
  auto bound = [&guard] {
    if (++guard > 2000000)
      sim::fail("endless-solutions", "a hopper does not move forward");
  };
  switch (dir) {
  case 0:
    for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity;
         h->tau(p + 1, &p, &q, &v), bound())
      out.push_back({p, q, v});
    break;
  case 1:
    for (h->rho(minfinity + 1, &p, &q, &v); q < maxfinity;
         h->rho(q + 1, &p, &q, &v), bound())
      out.push_back({p, q, v});
    break;
  case 2:
    for (h->uat(maxfinity - 1, &p, &q, &v); q > minfinity;
         h->uat(q - 1, &p, &q, &v), bound())
      out.push_back({p, q, v});
    std::reverse(out.begin(), out.end());
    break;
  default:
    for (h->ohr(maxfinity - 1, &p, &q, &v); p > minfinity;
         h->ohr(p - 1, &p, &q, &v), bound())
      out.push_back({p, q, v});
    std::reverse(out.begin(), out.end());
  }
  return out;
}

void compare(const char *name, const std::vector<Ivl> &got,
             const std::vector<Want> &want) {
  size_t n = std::max(got.size(), want.size());
  for (size_t i = 0; i < n; i++) {
    if (i >= got.size())
      sim::fail("missing-posting", "%s: [%ld,%ld] is missing (%zu of %zu found)",
                name, want[i].p, want[i].q, got.size(), want.size());
    if (i >= want.size())
      sim::fail("extra-posting", "%s: [%ld,%ld] should not be there (%zu, "
                                 "expected %zu)", name, got[i].p, got[i].q,
                got.size(), want.size());
    if (got[i].p != want[i].p || got[i].q != want[i].q)
      sim::fail("wrong-posting", "%s: number %zu is [%ld,%ld], should be "
                                 "[%ld,%ld]", name, i, got[i].p, got[i].q,
                want[i].p, want[i].q);
    if (got[i].v != want[i].v)
      sim::fail("wrong-value", "%s: [%ld,%ld] has value %g, should be %g", name,
                got[i].p, got[i].q, got[i].v, want[i].v);
  }
}

void probe_hopper(const char *name, cottontail::Hopper *h,
                  const std::vector<Want> &want, sim::Rng &r, int n) {
  for (int i = 0; i < n; i++) {
    addr k, p, q;
    fval v;
    int method;
    {
      Quiet _;
      if (want.empty() || r.chance(100))
        k = r.range(0, 3000);
      else {
        const Want &w = want[r.next() % want.size()];
        k = (r.chance(500) ? w.p : w.q) + r.range(-2, 2);
      }
      method = (int)r.range(0, 3);
    }
    switch (method) {
    case 0:
      h->tau(k, &p, &q, &v);
      break;
    case 1:
      h->rho(k, &p, &q, &v);
      break;
    case 2:
      h->uat(k, &p, &q, &v);
      break;
    default:
      h->ohr(k, &p, &q, &v);
    }
    Quiet _;
    const Want *x = nullptr;
    if (method == 0) {
      for (auto &w : want)
        if (w.p >= k) {
          x = &w;
          break;
        }
    } else if (method == 1) {
      for (auto &w : want)
        if (w.q >= k) {
          x = &w;
          break;
        }
    } else {
      for (size_t z = want.size(); z > 0; z--)
        if ((method == 2 ? want[z - 1].q : want[z - 1].p) <= k) {
          x = &want[z - 1];
          break;
        }
    }
    static const char *mn[] = {"tau", "rho", "uat", "ohr"};
    bool ok;
    if (x)
      ok = p == x->p && q == x->q && v == x->v;
    else
      ok = method < 2 ? p == maxfinity : q == minfinity;
    if (!ok)
      sim::fail("wrong-access", "%s: %s(%ld) is [%ld,%ld]=%g, should be "
                                "[%ld,%ld]=%g", name, mn[method], k, p, q, v,
                x ? x->p : 0, x ? x->q : 0, x ? x->v : 0.0);
  }
}

std::string clip(const std::string &s) {
  std::string o;
  for (char c : s.substr(0, 120))
    o += c == '\n' ? '|' : c == '\t' ? '~' : c;
  return o;
}

void compare_text(addr p, addr q, const std::string &got,
                  const std::string &want) {
  if (got == want)
    return;
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i])
    i++;
  sim::fail("wrong-text", "[%ld,%ld] is %zu bytes, should be %zu; they "
                          "differ at %zu: \"%s\" instead of \"%s\"", p, q,
            got.size(), want.size(), i, clip(got.substr(i)).c_str(),
            clip(want.substr(i)).c_str());
}

void pause(int n) {
  for (int i = 0; i < n; i++)
    sim::pause_point();
}

void expect_ok(bool ok, const char *what, const std::string &error) {
  if (!ok && !sim::error_fired())
    sim::fail("operation-failed", "%s failed although nothing went wrong: %s",
              what, error.c_str());
}

void given_back(const std::string &dir, std::function<void()> read) {
  sim::wait_idle();
  auto before = list_dir(dir);
  sim::watch_use(true);
  read();
  sim::watch_use(false);
  sim::probe(38);
  auto after = list_dir(dir);
  if (sim::error_fired())
    return;
  for (auto &name : before) {
    if (std::find(after.begin(), after.end(), name) == after.end())
      sim::fail("left-over", "opening an index that was closed in good order "
                "removes %s", name.c_str());
    if (!sim::used(name.c_str()))
      sim::fail("left-over", "%s is left in an index where nothing reads it",
                name.c_str());
  }
}

} // namespace scen
