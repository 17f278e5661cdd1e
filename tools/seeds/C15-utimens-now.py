prop = 'C15'
needs = 'utimens without given times on a symbolic link that leads out of the root'
breaks = 'the times of a file outside the root are changed'
edits = [('sources/unix.cpp', 'path.c_str(), ts, AT_SYMLINK_NOFOLLOW);', 'path.c_str(), ts, ts ? AT_SYMLINK_NOFOLLOW : 0);')]
demo = r"""
#include "demo_fs.h"
int main(int, char** v)
{
    std::string d = v[1];
    ::mkdir((d + "/root").c_str(), 0755);
    fclose(fopen((d + "/outside").c_str(), "w"));
    struct timespec old[2] = {{1000, 0}, {1000, 0}};
    EXPECT(utimensat(AT_FDCWD, (d + "/outside").c_str(), old, 0) == 0);
    EXPECT(::symlink("../outside", (d + "/root/s").c_str()) == 0);
    OSService os(d + "/root");
    os.utimens("s", nullptr);
    struct stat st;
    EXPECT(lstat((d + "/outside").c_str(), &st) == 0 && st.st_mtim.tv_sec == 1000);
}
"""
