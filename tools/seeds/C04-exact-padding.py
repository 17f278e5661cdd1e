prop = 'C04'
needs = 'a padded stream whose content is empty, opened again'
breaks = 'opening such a stream draws new padding, so whatever is derived from it changes'
edits = [('sources/streams.cpp', 'if (m_delegate->size() < padding_size)', 'if (m_delegate->size() <= padding_size)')]
demo = r"""
#include "demo_util.h"
int main()
{
    auto m = std::make_shared<Mem>();
    { PaddedStream p(m, 40); }
    std::vector<byte> before(40), after(40);
    m->read(before.data(), 0, 40);
    { PaddedStream p(m, 40); EXPECT(p.size() == 0); }
    m->read(after.data(), 0, 40);
    EXPECT(before == after);
}
"""
