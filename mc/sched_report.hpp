// A report that can cross a process boundary (line based) and be printed as JSON.
#pragma once
struct Report {
  uint64_t states = 0, transitions = 0, nontrivial = 0, nviol = 0, traces = 0;
  std::vector<std::string> viols, samples;
  std::map<std::string, uint64_t> counters;
  void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
  void violation(const std::string &s) { nviol++; if (viols.size() < 8) viols.push_back(s.substr(0, 4000)); }
  static std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o;
  }
  std::string dump() {
    std::string o;
    auto put = [&](char k, const std::string &s) { o += k; o += std::to_string(s.size()); o += ':'; o += s; };
    put('S', std::to_string(states)); put('T', std::to_string(transitions)); put('N', std::to_string(nontrivial)); put('V', std::to_string(nviol));
    for (auto &v : viols) put('v', v);
    for (auto &v : samples) put('s', v);
    for (auto &c : counters) put('c', c.first + "\1" + std::to_string(c.second));
    return o;
  }
  void absorb(const char *p) {
    while (*p) {
      char k = *p++;
      char *e;
      size_t n = strtoul(p, &e, 10);
      std::string s(e + 1, n);
      p = e + 1 + n;
      if (k == 'S') states += strtoull(s.c_str(), 0, 10);
      if (k == 'T') transitions += strtoull(s.c_str(), 0, 10);
      if (k == 'N') nontrivial += strtoull(s.c_str(), 0, 10);
      if (k == 'V') nviol += strtoull(s.c_str(), 0, 10);
      if (k == 'v' && viols.size() < 12) viols.push_back(s);
      if (k == 's') sample(s);
      if (k == 'c') { size_t q = s.find('\1'); counters[s.substr(0, q)] += strtoull(s.c_str() + q + 1, 0, 10); }
    }
  }
  void print() {
    printf("{\"states\":%lu,\"transitions\":%lu,\"nontrivial\":%lu,\"traces\":%lu,\"nviol\":%lu,\"viols\":[", states, transitions, nontrivial, traces, nviol);
    for (size_t i = 0; i < viols.size(); i++) printf("%s\"%s\"", i ? "," : "", esc(viols[i]).c_str());
    printf("],\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    printf("],\"counters\":{");
    bool f = true;
    for (auto &k : counters) { printf("%s\"%s\":%lu", f ? "" : ",", esc(k.first).c_str(), k.second); f = false; }
    printf("}}\n");
    fflush(stdout);
  }
};
static Report R;
