// C12: histories of operations on io::Stream against a model of handles, children and files.
#include "lib.h"
#include "io.hh"
#include <cstring>
#include <map>
#include <set>
#include <sstream>

namespace sim {
namespace {
std::string unesc(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '%' && i + 2 < s.size()) {
      o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      o += s[i];
  return o == "%" ? "" : o;
}
struct Slot {
  io::Stream *s = nullptr;
  bool open = false;
  int kind = 0;            // 1 file, 2 child, 3 standard input or output
  bool wr = false;         // for writing
  bool owned = true;       // the stream closes it
  std::string name, path;  // as given; the file behind it ("" for standard streams)
  char codec = 'f';
  bool known = false;      // the content to be read is known
  std::string data;        // to be read, or written so far
  size_t pos = 0;
  bool end = false;        // end of input seen
  bool shortw = false;     // a write came back short
  bool nobase = false;     // it was not known what the file held before
  bool badsrc = false;     // there is nothing to read from: closing may report that
  uint64_t fired0 = 0;
};
struct Target { int kind; std::string path; char codec; bool shell_r, shell_w; };
Target target_of(const std::string &n) {
  Target t = {1, n, 'f', false, false};
  auto ends = [&](const char *e) { size_t l = strlen(e); return n.size() >= l && n.compare(n.size() - l, l, e) == 0; };
  auto quoted = [&] { size_t a = n.find('\''), b = n.rfind('\''); return a == b ? std::string() : n.substr(a + 1, b - a - 1); };
  if (n == "-") return {3, "", 'f', false, false};
  if (ends("|")) { t.kind = 2; t.shell_r = true; t.path = quoted(); }
  else if (!n.empty() && n[0] == '|') { t.kind = 2; t.shell_w = true; t.path = quoted(); }
  else if (ends(".gz") || ends(".bz2")) t.kind = 2;
  if (t.kind == 2) t.codec = n.find("gzip") != std::string::npos && (t.shell_r || t.shell_w) ? 'g' : (t.shell_r || t.shell_w) ? 'f' : ends(".gz") ? 'g' : 'b';
  return t;
}
} // namespace
void lib_streams_run(const Plan &p) {
  std::map<std::string, std::string> *world;   // what is known to be in each file
  std::set<std::string> *unsure;               // files of which nothing is known
  std::vector<Slot> *sl;
  std::string *out, *inp;                      // standard output written so far; standard input
  bool out_sure = true, in_sure = true;
  size_t in_pos = 0;
  bool live = true;        // faults may still fire (some of them again and again)
  int orphans_f = 0, orphans_c = 0;
  {
    SutPause z;
    world = new std::map<std::string, std::string>(p.files.begin(), p.files.end());
    unsure = new std::set<std::string>;
    sl = new std::vector<Slot>(4);
    out = new std::string;
    inp = new std::string(p.procs.empty() ? "" : p.procs[0].stdin_data);
  }
  auto same = [&](uint64_t f0) { return f0 == faults_fired() && (!live || f0 == 0); };
  io::Stream::verbose = p.geti("verbose");
  size_t cur = 0;
  auto bad = [&](const std::string &cls, const std::string &t) {
    std::string x;
    { SutPause z; x = t + fmt(", at operation %zu (%s)", cur, cur < p.ops.size() ? p.ops[cur].c_str() : "end"); }
    wl_bad(cls, x);
  };
  auto account = [&] {
    HandleCounts h = handle_counts();
    int f = orphans_f, c = orphans_c;
    for (auto &x : *sl)
      if (x.open && x.kind == 1) f++;
      else if (x.open && x.kind == 2) c++;
    if (h.open_files > f || h.open_children > c) bad("leak", fmt("%d files and %d children are open, the streams in use account for %d and %d", h.open_files, h.open_children, f, c));
    if (h.open_files < f || h.open_children < c) bad("lost", fmt("%d files and %d children are open, the streams in use need %d and %d", h.open_files, h.open_children, f, c));
  };
  // the stream gave up what it held; ok: close reported success; checked: it could report
  auto closed = [&](Slot &x, bool ok, bool checked) {
    SutPause z;
    if (!x.open) return;
    bool calm = same(x.fired0);
    if (x.wr && x.kind != 3) {
      if (checked && ok && x.shortw) bad("silent", "closing '" + x.name + "' succeeds although a write failed");
      if (((checked && ok) || calm) && !x.nobase) {
        (*world)[x.path] = x.data;
        unsure->erase(x.path);
      } else
        unsure->insert(x.path);
    } else if (!x.wr && ok && checked && x.end && x.known && x.pos < x.data.size())
      bad("silent", fmt("closing '%s' succeeds after %zu of %zu bytes and an early end", x.name.c_str(), x.pos, x.data.size()));
    x.open = false;
  };
  // what a stream that must not close its handle leaves behind is closed here
  auto orphan = [&](Slot &x, FILE *f) {
    if (!x.open || x.owned || x.kind == 3) return;
    int rc;
    if (x.kind == 2) { orphans_c--; rc = pclose(f); } else { orphans_f--; rc = fclose(f); }
    SutPause z;
    bool calm = same(x.fired0);
    if (x.wr) {
      if (calm && rc) bad("error", "closing the handle left by '" + x.name + "' fails");
      if (calm && !x.nobase) { (*world)[x.path] = x.data; unsure->erase(x.path); } else unsure->insert(x.path);
    }
  };
  for (cur = 0; cur < p.ops.size(); cur++) {
    std::string verb, name, mode;
    int i, n = 0, seek = 0, allow = 1;
    {
      SutPause z;
      std::istringstream in(p.ops[cur]);
      in >> verb >> i;
      if (verb == "open" || verb == "ctor") { in >> name >> mode >> seek >> allow; name = unesc(name); }
      else in >> n;
      if (verb == "heal") i = 0;
      if (i < 0 || i >= (int)sl->size()) continue;
    }
    Slot &x = (*sl)[i];
    if (verb == "heal") {
      set_fault_list({});
      if (faults_fired())
        for (auto &y : *sl) y.fired0 = faults_fired() + 1000000;
      live = false;
      clearerr(stdin);
      clearerr(stdout);
    } else if (verb == "new") {
      if (x.s) continue;
      x.s = new io::Stream();
      if (x.s->file) bad("state", "a new stream is not closed");
    } else if (verb == "open" || verb == "ctor") {
      if ((verb == "ctor") == (x.s != nullptr)) continue;
      Target t;
      bool expect, skip = false, wr = mode != "r" && mode != "rb";
      {
        SutPause z;
        t = target_of(name);
        // two handles on one file, one of them writing, have no defined outcome
        for (auto &y : *sl)
          if (&y != &x && y.open && !t.path.empty() && y.path == t.path && (y.wr || wr)) skip = true;
        if (&x == &(*sl)[i] && x.open && !t.path.empty() && x.path == t.path && !x.owned) skip = true;
        if (t.kind == 2 && mode != "r" && mode != "w" && (t.shell_r || t.shell_w) == false) wr = false;
      }
      if (skip) continue;
      FILE *const old = x.s ? x.s->file : nullptr;
      bool was = x.open, wasown = x.owned;
      if (was && !wasown && x.kind != 3) { if (x.kind == 2) orphans_c++; else orphans_f++; }
      uint64_t f0 = faults_fired();
      int how = 0; // 1 open error, 2 close error, 3 other
      try {
        if (verb == "ctor") x.s = new io::Stream(name, mode, (io::SeekType)seek, allow);
        else x.s->open(name, mode, (io::SeekType)seek, allow);
      } catch (io::Stream::OpenError &) { how = 1; }
      catch (io::Stream::CloseError &) { how = 2; }
      catch (std::exception &) { how = 3; }
      bool calm = same(f0);
      {
        SutPause z;
        if (how == 3) bad("error", "opening '" + name + "' raises something else");
        // the stream it held before is gone
        const bool oldstd = was && x.kind == 3, oldtaint = was && !same(x.fired0);
        if (was && x.kind == 3 && oldtaint) (x.wr ? out_sure : in_sure) = false;
        if (was && wasown && x.kind != 3) closed(x, how != 2, true);
        if (how == 2 && !was) bad("error", "opening '" + name + "' in a closed stream raises a close error");
        if (how == 2 && !oldtaint && !x.badsrc && !(oldstd && faults_fired())) bad("error", "opening '" + name + "' raises a close error, nothing failed");
      }
      if (was && !wasown && x.kind != 3) orphan(x, old);
      SutPause z;
      x.open = false;
      // may it succeed?
      expect = !name.empty();
      if (t.kind == 3 && (seek != 0 || (mode != "r" && mode != "w"))) expect = false;
      if (t.kind == 2 && (seek == 2 || (mode != "r" && mode != "w"))) expect = false;
      bool certain = true;
      if (t.kind == 1 && expect) {
        bool dir = world->count(name + "/");
        if (dir) expect = mode == "r" || mode == "rb";
        else if (!world->count(name) && mode[0] == 'r') {
          expect = false;
          if (unsure->count(name)) certain = false;
        } else if (unsure->count(name) && mode[0] == 'r')
          certain = false;
      }
      if (how == 0) {
        if (!expect && certain) bad("opens", "opening '" + name + "' mode " + mode + fmt(" seek %d succeeds", seek));
        if (!x.s || !x.s->file) bad("state", "a stream that was opened holds no handle");
        x.open = true;
        x.kind = t.kind;
        x.name = name;
        x.path = t.path;
        x.codec = t.codec;
        x.wr = wr;
        x.owned = allow || t.kind == 3;
        x.data.clear();
        x.pos = 0;
        x.end = x.shortw = x.badsrc = x.nobase = false;
        x.fired0 = calm ? f0 : faults_fired() + 1000000; // a fault during opening: nothing is certain
        x.known = false;
        if (!wr && t.kind != 3) {
          x.known = !unsure->count(t.path);
          if (world->count(t.path)) {
            if (t.codec == 'f') x.data = (*world)[t.path];
            else if ((*world)[t.path].compare(0, 1, "\x01") == 0) x.data = (*world)[t.path].substr(1); // written here
            else if (!dec((*world)[t.path], t.codec, x.data)) x.known = false;
          } else
            x.known = t.kind == 2 && x.known;
          x.badsrc = !x.known || !world->count(t.path);
        }
        if (wr && t.kind != 3) {
          if (t.kind == 1 && mode[0] == 'a' && world->count(name)) x.data = (*world)[name];
          if (t.codec != 'f') x.data = "\x01"; // marks decoded content
          x.pos = x.data.size();
          if (t.kind == 1 && mode[0] == 'r') { x.data = (*world)[name]; x.pos = 0; }
          if (unsure->count(t.path) && mode[0] != 'w') x.nobase = true;
          (*world)[t.path]; // it exists now
        }
      } else {
        if (expect && calm && how == 1 && certain) bad("fails", "opening '" + name + "' mode " + mode + fmt(" seek %d fails, nothing failed", seek));
        if (verb == "open" && x.s->file) bad("state", "a stream that could not open '" + name + "' is not closed");
        if (verb == "ctor") x.s = nullptr;
        if (wr && !calm && t.kind != 3 && !t.path.empty() && expect) unsure->insert(t.path);
      }
    } else if (verb == "read" || verb == "line") {
      if (!x.s || !x.open || x.wr || !x.s->file || n <= 0) continue;
      std::string got;
      size_t k;
      bool end;
      {
        char *buf;
        { SutPause z; buf = new char[n + 1]; }
        if (verb == "line") {
          k = 0;
          int c;
          while ((int)k < n && (c = getc(x.s->file)) != EOF) { buf[k++] = (char)c; if (c == '\n') break; }
        } else
          k = fread(buf, 1, n, x.s->file);
        end = feof(x.s->file);
        SutPause z;
        got.assign(buf, k);
        delete[] buf;
      }
      SutPause z;
      bool calm = same(x.fired0);
      const std::string &src = x.kind == 3 ? *inp : x.data;
      size_t &pos = x.kind == 3 ? in_pos : x.pos;
      if (x.kind == 3 ? in_sure : x.known) {
        if (src.compare(pos, k, got)) bad("content", fmt("'%s': the %zu bytes read at %zu are not those of the file", x.name.c_str(), k, pos));
        size_t want = std::min((size_t)n, src.size() - pos);
        if (verb == "line") { size_t e = src.find('\n', pos); if (e != std::string::npos) want = std::min(want, e + 1 - pos); }
        if (calm && k != want && !(x.kind == 3 && faults_fired())) bad("content", fmt("'%s': %zu bytes read at %zu, %zu were there", x.name.c_str(), k, pos, want));
        pos += k;
      }
      if (end) x.end = true;
      if (x.kind == 3 && !calm) in_sure = false;
    } else if (verb == "write") {
      if (!x.s || !x.open || !x.wr || !x.s->file || n <= 0) continue;
      std::string d;
      { SutPause z; for (int j = 0; j < n; j++) d += j % 61 == 60 ? '\n' : (char)('a' + (cur * 7 + j) % 26); }
      size_t k = fwrite(d.data(), 1, n, x.s->file);
      SutPause z;
      if (x.kind == 3) { *out += d; if (k != (size_t)n) out_sure = false; if (!same(x.fired0)) out_sure = false; }
      else {
        if (x.pos < x.data.size()) x.data.replace(x.pos, n, d); // "r+" starts at the front
        else x.data += d;
        x.pos += n;
      }
      if (k != (size_t)n) {
        x.shortw = true;
        if (same(x.fired0) && !(x.kind == 3 && faults_fired())) bad("error", "writing to '" + x.name + "' fails, nothing failed");
      }
    } else if (verb == "flush") {
      if (!x.s || !x.open || !x.wr || !x.s->file) continue;
      if (fflush(x.s->file)) x.shortw = x.kind != 3;
      if (x.kind == 3 && !same(x.fired0)) out_sure = false;
    } else if (verb == "close" || verb == "del") {
      if (!x.s) continue;
      FILE *const old = x.s->file;
      int how = 0;
      if (verb == "close") {
        try { x.s->close(); } catch (io::Stream::CloseError &) { how = 2; } catch (std::exception &) { how = 3; }
      } else {
        if (x.open && !x.owned && x.kind != 3) { if (x.kind == 2) orphans_c++; else orphans_f++; }
        delete x.s;
        x.s = nullptr;
      }
      if (how == 3) bad("error", "close raises something else");
      bool calm;
      {
        SutPause z;
        calm = same(x.fired0);
        if (how == 2 && !x.open) bad("error", "closing a closed stream fails");
        if (how == 2 && calm && !x.badsrc && !(x.kind == 3 && faults_fired())) bad("error", "closing '" + x.name + "' fails, nothing failed");
        if (x.open && x.kind == 3 && (how || !calm)) (x.wr ? out_sure : in_sure) = false;
      }
      if (x.open && x.owned && x.kind != 3) {
        closed(x, how == 0, verb == "close");
        if (x.s && x.s->file) bad("state", "a closed stream still holds its handle");
      } else if (x.open && !x.owned && x.kind != 3) {
        if (verb == "del") { orphan(x, old); x.open = false; }
        else if (!x.s->file) { // given up without closing: the handle is the caller's
          if (x.kind == 2) orphans_c++; else orphans_f++;
          orphan(x, old);
          x.open = false;
        }
      } else if (x.kind == 3) {
        if (verb == "del" || !x.s->file) x.open = false;
      }
    }
    account();
  }
  set_fault_list({});
  for (auto &x : *sl) {
    if (!x.s) continue;
    FILE *const old = x.s->file;
    if (x.open && !x.owned && x.kind != 3) { if (x.kind == 2) orphans_c++; else orphans_f++; }
    uint64_t f0 = x.fired0;
    delete x.s;
    x.s = nullptr;
    if (x.open && x.owned && x.kind != 3) closed(x, same(f0), false);
    else orphan(x, old);
    if (x.open && x.kind == 3 && !same(f0)) (x.wr ? out_sure : in_sure) = false;
    x.open = false;
  }
  account();
  fflush(stdout);
  SutPause z;
  std::string rep = "OK\n";
  if (out_sure) rep += fmt("O %016llx %zu\n", (unsigned long long)hash_str(*out), out->size());
  for (auto &f : *world) {
    bool coded = f.second.compare(0, 1, "\x01") == 0;
    if (unsure->count(f.first)) rep += "? " + esc(f.first) + "\n";
    else rep += "F " + esc(f.first) + fmt(" %d %016llx %zu\n", coded, (unsigned long long)hash_str(coded ? f.second.substr(1) : f.second), coded ? f.second.size() - 1 : f.second.size());
  }
  for (auto &u : *unsure)
    if (!world->count(u)) rep += "? " + esc(u) + "\n";
  report(rep);
}
} // namespace sim
