// Directory tree snapshots, and running without privileges.
#pragma once
#include <dirent.h>
#include <grp.h>
#include <sys/prctl.h>

#include "common.hpp"

namespace {

struct Node {
  char type;  // d f l
  std::string what;  // content or link target
  mode_t mode = 0;
  bool operator==(const Node& o) const { return type == o.type && what == o.what && mode == o.mode; }
};
using Tree = std::map<std::string, Node>;

void scan(int dfd, const std::string& at, Tree& t) {
  DIR* d = fdopendir(dfd);
  if (!d) {
    close(dfd);
    return;
  }
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    struct stat st;
    if (fstatat(dfd, n.c_str(), &st, AT_SYMLINK_NOFOLLOW)) continue;
    std::string p = at + "/" + n;
    if (S_ISDIR(st.st_mode)) {
      t[p] = {'d', "", st.st_mode & 0777};
      scan(openat(dfd, n.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC), p, t);
    } else if (S_ISLNK(st.st_mode)) {
      char buf[4096];
      ssize_t k = readlinkat(dfd, n.c_str(), buf, sizeof(buf));
      t[p] = {'l', std::string(buf, k > 0 ? k : 0)};
    } else {
      int fd = openat(dfd, n.c_str(), O_RDONLY | O_CLOEXEC);
      std::string c(std::min<off_t>(st.st_size, 1 << 20), 0);  // what is beyond is not looked at
      if (fd < 0 || read(fd, &c[0], c.size()) != (ssize_t)c.size()) c = "?";
      close(fd);
      t[p] = {'f', c, st.st_mode & 0777};
    }
  }
  closedir(d);
}
Tree scan(const std::string& base) {
  Tree t;
  int fd = open(base.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  if (fd >= 0) scan(fd, "", t);
  return t;
}
void wipe(int pfd, const char* name) {  // the harness's own removal
  int fd = openat(pfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
  if (fd < 0 && errno == EACCES && fchmodat(pfd, name, 0700, 0) == 0) fd = openat(pfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
  if (fd >= 0) {
    DIR* d = fdopendir(fd);
    std::vector<std::string> all;
    while (dirent* e = readdir(d))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) all.push_back(e->d_name);
    for (auto& n : all) wipe(fd, n.c_str());
    closedir(d);
    unlinkat(pfd, name, AT_REMOVEDIR);
  } else {
    unlinkat(pfd, name, 0);
  }
}

std::string diff(const Tree& want, const Tree& got) {
  std::string s;
  int n = 0;
  for (auto& x : want)
    if (!got.count(x.first)) {
      if (n++ < 5) s += " missing " + x.first.substr(0, 200);
    } else if (!(got.at(x.first) == x.second)) {
      if (n++ < 5) s += " changed " + x.first.substr(0, 200);
    }
  for (auto& x : got)
    if (!want.count(x.first) && n++ < 5) s += " unexpected " + x.first.substr(0, 200);
  return s;
}

// From here on the process can only reach scratch/u.
void become_nobody(Ctx& ctx) {
  umask(0);
  std::string u = ctx.scratch + "/u";
  mkdir(u.c_str(), 0755);
  if (getuid() == 0) {
    if (chmod(ctx.scratch.c_str(), 0755) || chown(u.c_str(), 65534, 65534) || setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))
      ctx.harness_error("cannot become an unprivileged user");
    prctl(PR_SET_DUMPABLE, 1);
  }
  if (getuid() == 0 || access("/root", W_OK) == 0) ctx.harness_error("still privileged");
}

}  // namespace
