// Reference tokenizer (C05): maximal runs of non-delimiters; delimited occurrences of the atomic token, left to right, are kept whole
#include <string>
#include <vector>
inline std::vector<std::string> ref_runs (const std::string& s, const std::string& delims) {
  std::vector<std::string> out; std::string cur;
  for (char x:s) { if (delims.find(x)!=std::string::npos) { if (!cur.empty()) out.push_back(cur); cur.clear(); } else cur+=x; }
  if (!cur.empty()) out.push_back(cur);
  return out;
}
inline std::vector<std::string> ref_tokens (const std::string& s, const std::string& delims, const std::string& atomic, int* kept = nullptr) {
  if (atomic.empty()) return ref_runs(s,delims);
  std::vector<std::string> out; std::string pending;
  auto isd=[&](size_t i){ return delims.find(s[i])!=std::string::npos; };
  auto flush=[&]{ auto r=ref_runs(pending,delims); out.insert(out.end(),r.begin(),r.end()); pending.clear(); };
  size_t i=0;
  while (i<s.size()) {
    size_t e=i+atomic.size();
    if (e<=s.size() && s.compare(i,atomic.size(),atomic)==0 && (i==0 || isd(i-1)) && (e==s.size() || isd(e))) {
      flush(); out.push_back(atomic); if (kept) ++*kept; i=e;
    } else pending+=s[i++];
  }
  flush();
  return out;
}
