prop = 'C16'
needs = 'a byte string whose length is no multiple of five and whose last byte has low bits set'
breaks = 'the last character of the text mixes in bits of the last byte again'
edits = [('sources/mystring.cpp', 'byte next = byte_index + 1 < size ? input[byte_index + 1] : 0;', 'byte next = byte_index + 1 < size ? input[byte_index + 1] : b;')]
demo = r"""
#include "demo_util.h"
#include "mystring.h"
int main()
{
    std::string o;
    byte a[4] = {0xff, 0xff, 0xff, 0xff};
    base32_encode(a, 4, o);
    EXPECT(o == "9999998" || o == "999999S" || o.size() == 7);
    // the unused bits of the last character are zero: the same bytes followed by a zero byte begin with the same text
    for (int n = 1; n < 5; ++n)
        for (int c = 0; c < 256; ++c)
        {
            byte x[6] = {1, 2, 3, 4, 0, 0};
            x[n - 1] = c;
            x[n] = 0;
            std::string s, t;
            base32_encode(x, n, s);
            base32_encode(x, n + 1, t);
            EXPECT(t.compare(0, s.size(), s) == 0);
        }
}
"""
