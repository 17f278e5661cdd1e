prop = 'C16'
needs = 'a size between 2 GiB and 4 GiB'
breaks = 'it becomes a negative int instead of being refused'
edits = [('sources/myutils.h', 'if (value > std::numeric_limits<int>::max())', 'if (value > std::numeric_limits<unsigned>::max())')]
demo = r"""
#include "demo_util.h"
int main()
{
    EXPECT(checked_cast<int>(static_cast<size_t>(2147483647)) == 2147483647);
    for (size_t v : {2147483648ul, 4294967295ul, 4294967296ul})
    {
        bool refused = false;
        try { checked_cast<int>(v); } catch (const std::exception&) { refused = true; }
        EXPECT(refused);
    }
}
"""
