// compare model path with the real one
#include <cstdio>
#include <string>
#include <filesystem>
namespace real = std::filesystem;
#define filesystem sxfilesystem
#define sx_fork(x) (x)
#define SX_H
#include "../rt/shadow/fs/sxpath.h"
#undef filesystem
namespace mod = std::sxfilesystem;
int bad=0; long cnt=0;
#define CK(what, a, b) do { cnt++; if (std::string(a) != std::string(b)) { if (bad++ < 20) printf("%s('%s'): real '%s' model '%s'\n", what, s.c_str(), std::string(a).c_str(), std::string(b).c_str()); } } while (0)
int main() {
 const char al[] = "a./b"; std::vector<std::string> all{""}; for (size_t i=0;i<all.size();i++) if (all[i].size()<7) for (const char*c=al;*c;c++) all.push_back(all[i]+*c);
 for (auto& s: all) { real::path r(s); mod::path m(s);
  CK("extension", r.extension().string(), m.extension().string()); CK("stem", r.stem().string(), m.stem().string()); CK("filename", r.filename().string(), m.filename().string()); CK("parent", r.parent_path().string(), m.parent_path().string());
  { auto x=r; auto y=m; CK("remove_filename", x.remove_filename().string(), y.remove_filename().string()); }
  { auto x=r; auto y=m; CK("replace_extension", x.replace_extension(".t").string(), y.replace_extension(".t").string()); }
  { auto x=r; auto y=m; CK("div", (x/"c").string(), (y/"c").string()); }
  if (s.size() < 2 || s.find_first_not_of('/') != s.npos) CK("normal", r.lexically_normal().string(), m.lexically_normal().string()); CK("relpath", r.relative_path().string(), m.relative_path().string());
  if (s.size() > 1 && s.find_first_not_of('/') == s.npos) continue; // the library keeps a path of several slashes as it is
  std::string a,b; for (auto& x: r) a += "|" + x.string(); for (auto& x: m) b += "|" + x.string(); CK("parts", a, b);
 }
 for (auto& s: all) if (s.size()<5) for (auto& t: all) if (t.size()<4) { CK(("rel "+t).c_str(), real::path(s).lexically_relative(t).string(), mod::path(s).lexically_relative(t).string()); int x = real::path(s).compare(t), y = mod::path(s).compare(t); CK(("cmp "+t).c_str(), std::to_string((x>0)-(x<0)), std::to_string((y>0)-(y<0))); }
 printf("%ld comparisons, %d bad\n", cnt, bad); return bad != 0; }
