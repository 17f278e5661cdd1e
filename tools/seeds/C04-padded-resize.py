prop = 'C04'
needs = 'a padded stream resized to zero'
breaks = 'the padding is lost, so later sizes and bytes are shifted'
edits = [('sources/streams.h', 'return m_delegate->resize(size + m_padding_size);', 'return m_delegate->resize(size ? size + m_padding_size : 0);')]
demo = r"""
#include "demo_util.h"
int main()
{
    auto m = std::make_shared<Mem>();
    PaddedStream p(m, 7);
    byte a[5] = {1, 2, 3, 4, 5}, o[5];
    p.write(a, 0, 5);
    p.resize(0);
    EXPECT(p.size() == 0);
    EXPECT(m->size() == 7);
    PaddedStream q(m, 7);
    EXPECT(q.size() == 0);
    EXPECT(m->size() == 7);
}
"""
