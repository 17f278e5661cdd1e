prop = 'C15'
needs = 'a hard link to a symbolic link that leads out of the root'
breaks = 'the link is made to what the symbolic link points at, outside the root'
edits = [('sources/unix.cpp', 'source.c_str(), m_dir_fd, dest.c_str(), 0);', 'source.c_str(), m_dir_fd, dest.c_str(), AT_SYMLINK_FOLLOW);')]
demo = r"""
#include "demo_fs.h"
int main(int, char** v)
{
    std::string d = v[1];
    ::mkdir((d + "/root").c_str(), 0755);
    FILE* f = fopen((d + "/outside").c_str(), "w");
    fputs("secret", f);
    fclose(f);
    EXPECT(::symlink("../outside", (d + "/root/s").c_str()) == 0);
    OSService os(d + "/root");
    os.link("s", "t");
    struct stat st;
    EXPECT(lstat((d + "/root/t").c_str(), &st) == 0 && S_ISLNK(st.st_mode));
    EXPECT(lstat((d + "/outside").c_str(), &st) == 0 && st.st_nlink == 1);
}
"""
