// Textual form of a World: the replay file.
#include <stdio.h>
#include "sim.h"
namespace sim {
std::string esc(const std::string& s)
{
  std::string o;
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}
std::string unesc(const std::string& s)
{
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
  {
    if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
    char c = s[++i];
    if (c == 'n') o += '\n';
    else if (c == 'x' && i + 2 < s.size())
    {
      auto h = [](char x) { return x <= '9' ? x - '0' : x - 'a' + 10; };
      o += static_cast<char>(h(s[i + 1]) * 16 + h(s[i + 2]));
      i += 2;
    }
    else o += c;
  }
  return o;
}
uint64_t pluginHash(const std::string& name, uint64_t seed)
{
  uint64_t h = 1469598103934665603ull ^ (seed * 0x9E3779B97F4A7C15ull);
  for (unsigned char c : name) h = (h ^ c) * 1099511628211ull;
  return h >> 20;
}
static std::string u(uint64_t v) { return std::to_string(v); }
std::string serialize(const World& w)
{
  std::string o;
  for (auto& a : w.argv) o += "arg " + esc(a) + "\n";
  o += "cwd " + esc(w.cwd) + "\n";
  for (auto& d : w.dirs) o += "dir " + esc(d) + "\n";
  for (auto& f : w.files)
  {
    o += "file " + esc(f.first) + "\n";
    // content by lines, each escaped, so that a replay file can be read
    size_t p = 0;
    while (p < f.second.size())
    {
      size_t e = f.second.find('\n', p);
      e = e == std::string::npos ? f.second.size() : e + 1;
      o += "+" + esc(f.second.substr(p, e - p)) + "\n";
      p = e;
    }
  }
  for (auto& m : w.input)
  {
    if (!m.await.empty()) o += "await " + esc(m.await) + "\n";
    o += "msg " + esc(m.data) + "\n";
  }
  if (w.tty) o += "tty 1\n";
  auto ch = [&](const char* n, const Chunk& c) {
    if (c.mode != CH_FULL) o += std::string(n) + " " + u(static_cast<uint64_t>(c.mode)) + " " + u(c.param) + "\n";
  };
  ch("filechunk", w.fileChunk);
  ch("stdinchunk", w.stdinChunk);
  ch("outchunk", w.outChunk);
  o += "alloc " + u(w.alloc.order) + " " + u(w.alloc.reuse) + " " + u(w.alloc.fillNew) + " " + std::to_string(w.alloc.fillFree) + " " + u(w.alloc.guard) + " " + u(w.alloc.seed) + "\n";
  o += "clock " + u(w.clock) + " " + u(w.clockSeed) + "\n";
  o += "stack " + u(w.stackKb) + "\n";
  o += "blk " + u(w.blk) + "\n";
  if (w.plugin) o += "plugin " + u(w.plugin) + " " + u(w.pluginSeed) + "\n";
  for (auto& f : w.faults)
    o += "fault " + std::string(faultNames[f.kind]) + " " + u(f.at) + " " + std::to_string(f.arg) + " " + std::to_string(f.arg2) + " " + esc(f.target) + "\n";
  o += "end\n";
  return o;
}
bool deserialize(const std::string& s, size_t& pos, World& w)
{
  w = World();
  w.argv.clear();
  std::string curFile, await;
  while (pos < s.size())
  {
    size_t e = s.find('\n', pos);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(pos, e - pos);
    pos = e + 1;
    if (l == "end") return true;
    if (!l.empty() && l[0] == '+') { w.files[curFile] += unesc(l.substr(1)); continue; }
    size_t sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
    unsigned long long a = 0, b = 0;
    if (k == "arg") w.argv.push_back(unesc(v));
    else if (k == "cwd") w.cwd = unesc(v);
    else if (k == "dir") w.dirs.push_back(unesc(v));
    else if (k == "file") { curFile = unesc(v); w.files[curFile]; }
    else if (k == "await") await = unesc(v);
    else if (k == "msg") { w.input.push_back(Msg{unesc(v), await}); await.clear(); }
    else if (k == "tty") w.tty = true;
    else if (k == "filechunk" || k == "stdinchunk" || k == "outchunk")
    {
      sscanf(v.c_str(), "%llu %llu", &a, &b);
      Chunk& c = k[0] == 'f' ? w.fileChunk : k[0] == 's' ? w.stdinChunk : w.outChunk;
      c.mode = static_cast<int>(a);
      c.param = b;
    }
    else if (k == "alloc")
    {
      unsigned long long sd = 0;
      sscanf(v.c_str(), "%d %d %d %d %d %llu", &w.alloc.order, &w.alloc.reuse, &w.alloc.fillNew, &w.alloc.fillFree, &w.alloc.guard, &sd);
      w.alloc.seed = sd;
    }
    else if (k == "clock") { sscanf(v.c_str(), "%llu %llu", &a, &b); w.clock = static_cast<int>(a); w.clockSeed = b; }
    else if (k == "stack") { sscanf(v.c_str(), "%llu", &a); w.stackKb = a; }
    else if (k == "plugin") { sscanf(v.c_str(), "%llu %llu", &a, &b); w.plugin = a; w.pluginSeed = b; }
    else if (k == "blk") { sscanf(v.c_str(), "%llu", &a); w.blk = a; }
    else if (k == "fault")
    {
      char name[64];
      long long g = 0, h = 0;
      int n = 0;
      if (sscanf(v.c_str(), "%63s %llu %lld %lld %n", name, &a, &g, &h, &n) < 4) return false;
      Fault f;
      for (int i = 0; i < F_KINDS; i++) if (std::string(name) == faultNames[i]) f.kind = i;
      f.at = a; f.arg = g; f.arg2 = h;
      f.target = unesc(v.substr(static_cast<size_t>(n)));
      w.faults.push_back(f);
    }
    else return false;
  }
  return false;
}
}  // namespace sim
