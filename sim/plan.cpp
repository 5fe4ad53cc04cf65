#include "plan.h"

#include <sstream>

static std::string csv64(const std::vector<int64_t>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s.empty() ? "-" : s;
}
static std::string csv32(const std::vector<int>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s.empty() ? "-" : s;
}
template <class T> static std::vector<T> uncsv(const std::string& s) {
  std::vector<T> v;
  if (s == "-" || s.empty()) return v;
  std::stringstream ss(s);
  std::string x;
  while (std::getline(ss, x, ',')) v.push_back((T)strtoll(x.c_str(), 0, 10));
  return v;
}
static std::string hexd(double d) {
  char b[64];
  snprintf(b, sizeof b, "%a", d);
  return b;
}

std::string op_text(const Op& o) {
  std::ostringstream s;
  s << "op id=" << o.id << " kind=" << KIND_NAME[o.kind];
  if (o.phase) s << " phase=" << o.phase;
  if (o.thr) s << " thr=" << o.thr;
  if (o.out >= 0) s << " out=" << o.out;
  if (o.nin) s << " in=" << csv32(std::vector<int>(o.in, o.in + o.nin));
  if (!o.dims.empty()) s << " dims=" << csv64(o.dims);
  if (!o.pa.empty()) s << " a=" << csv32(o.pa);
  if (!o.pb.empty()) s << " b=" << csv32(o.pb);
  if (!o.pc.empty()) s << " c=" << csv32(o.pc);
  if (!o.pd.empty()) s << " d=" << csv32(o.pd);
  if (o.groups != 1) s << " groups=" << o.groups;
  if (o.axis) s << " axis=" << o.axis;
  if (o.kind == K_POOLING) s << " mode=" << o.mode;
  if (o.dval != 0) s << " val=" << hexd(o.dval);
  if (o.dtype != 8) s << " dtype=" << DT_NAME[o.dtype];
  if (o.devt) s << " devt=" << o.devt;
  if (o.devi) s << " devi=" << o.devi;
  if (o.dmode) s << " dmode=" << o.dmode;
  if (o.dlen != -1) s << " dlen=" << o.dlen;
  if (o.style) s << " style=" << o.style;
  if (o.dseed != 1) s << " dseed=" << o.dseed;
  if (o.preset) s << " preset=" << o.preset;
  if (o.fault.kind) s << " fault=" << FAULT_NAME[o.fault.kind] << "," << o.fault.a << "," << o.fault.b;
  if (o.probe) s << " probe=1";
  if (o.sweep) s << " sweep=" << o.sweep;
  if (!o.retry) s << " retry=0";
  if (o.noise) s << " noise=1";
  if (o.twice) s << " twice=" << o.twice;
  if (o.idx) s << " idx=" << o.idx;
  return s.str();
}

std::string plan_text(const Plan& p) {
  std::ostringstream s;
  s << "# aitisa_api simulated execution (replay: bash /verif/bin/replay.sh <this file>)\n";
  s << "prop " << p.prop << "\n";
  s << "origin seed=" << p.seed << " run=" << p.index << "\n";
  if (!p.vkind.empty()) s << "expect " << p.vkind << " in " << p.vop << "\n";
  const RtCfg& r = p.rt;
  s << "cfg allocator=" << p.allocator << " nthr=" << p.nthr << " policy=" << r.policy << " fill=" << r.fill
    << " mem_seed=" << r.mem_seed << " clock0=" << r.clock0 << " clock_mode=" << r.clock_mode
    << " sched_seed=" << r.sched_seed << " sched_p=" << hexd(r.sched_p) << " sched_hot=" << hexd(r.sched_hot)
    << " rand=" << r.rand_mode << " explicit=" << (r.sched_explicit ? 1 : 0) << "\n";
  for (auto& o : p.ops) s << op_text(o) << "\n";
  for (auto& w : r.sw) s << "sw " << w.op << " " << w.ev << " " << w.to << "\n";
  s << "end\n";
  return s.str();
}

bool plan_parse(const std::string& text, Plan& p, std::string& err) {
  std::stringstream in(text);
  std::string line;
  bool end = false;
  p = Plan();
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::stringstream ls(line);
    std::string w;
    ls >> w;
    if (w == "prop") ls >> p.prop;
    else if (w == "end") { end = true; break; }
    else if (w == "expect") { std::string in_; ls >> p.vkind >> in_ >> p.vop; }
    else if (w == "sw") {
      SwRec r;
      ls >> r.op >> r.ev >> r.to;
      p.rt.sw.push_back(r);
    } else if (w == "origin" || w == "cfg" || w == "op") {
      Op o;
      std::string kv;
      while (ls >> kv) {
        size_t q = kv.find('=');
        if (q == std::string::npos) { err = "bad token " + kv; return false; }
        std::string k = kv.substr(0, q), v = kv.substr(q + 1);
        auto I = [&] { return strtoll(v.c_str(), 0, 10); };
        auto U = [&] { return strtoull(v.c_str(), 0, 10); };
        auto D = [&] { return strtod(v.c_str(), 0); };
        if (w == "origin") {
          if (k == "seed") p.seed = U();
          if (k == "run") p.index = U();
        } else if (w == "cfg") {
          RtCfg& r = p.rt;
          if (k == "allocator") p.allocator = I();
          else if (k == "nthr") p.nthr = I();
          else if (k == "policy") r.policy = I();
          else if (k == "fill") r.fill = I();
          else if (k == "mem_seed") r.mem_seed = U();
          else if (k == "clock0") r.clock0 = I();
          else if (k == "clock_mode") r.clock_mode = I();
          else if (k == "sched_seed") r.sched_seed = U();
          else if (k == "sched_p") r.sched_p = D();
          else if (k == "sched_hot") r.sched_hot = D();
          else if (k == "rand") r.rand_mode = I();
          else if (k == "explicit") r.sched_explicit = I();
          else { err = "cfg " + k; return false; }
        } else {
          if (k == "id") o.id = I();
          else if (k == "kind") {
            o.kind = -1;
            for (int i = 0; i < K_NKINDS; i++) if (v == KIND_NAME[i]) o.kind = i;
            if (o.kind < 0) { err = "kind " + v; return false; }
          } else if (k == "phase") o.phase = I();
          else if (k == "thr") o.thr = I();
          else if (k == "out") o.out = I();
          else if (k == "in") {
            auto x = uncsv<int>(v);
            o.nin = (int)x.size();
            for (int i = 0; i < o.nin && i < 5; i++) o.in[i] = x[i];
          } else if (k == "dims") o.dims = uncsv<int64_t>(v);
          else if (k == "a") o.pa = uncsv<int>(v);
          else if (k == "b") o.pb = uncsv<int>(v);
          else if (k == "c") o.pc = uncsv<int>(v);
          else if (k == "d") o.pd = uncsv<int>(v);
          else if (k == "groups") o.groups = I();
          else if (k == "axis") o.axis = I();
          else if (k == "mode") o.mode = v;
          else if (k == "val") o.dval = D();
          else if (k == "dtype") { for (int i = 0; i < 10; i++) if (v == DT_NAME[i]) o.dtype = i; }
          else if (k == "devt") o.devt = I();
          else if (k == "devi") o.devi = I();
          else if (k == "dmode") o.dmode = I();
          else if (k == "dlen") o.dlen = I();
          else if (k == "style") o.style = I();
          else if (k == "dseed") o.dseed = U();
          else if (k == "preset") o.preset = I();
          else if (k == "fault") {
            size_t c1 = v.find(',');
            std::string n = v.substr(0, c1);
            for (int i = 0; i < F_NKINDS; i++) if (n == FAULT_NAME[i]) o.fault.kind = i;
            auto x = uncsv<int64_t>(v.substr(c1 + 1));
            o.fault.a = x.size() > 0 ? x[0] : 0;
            o.fault.b = x.size() > 1 ? x[1] : 0;
          } else if (k == "probe") o.probe = I();
          else if (k == "sweep") o.sweep = I();
          else if (k == "retry") o.retry = I();
          else if (k == "noise") o.noise = I();
          else if (k == "twice") o.twice = I();
          else if (k == "idx") o.idx = I();
          else { err = "op key " + k; return false; }
        }
      }
      if (w == "op") p.ops.push_back(o);
    } else { err = "line: " + line; return false; }
  }
  if (!end) { err = "truncated replay file"; return false; }
  return true;
}
