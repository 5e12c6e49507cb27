// libstdc++ unrolls its linear search four times; this is the same search, one element at a time
#include <bits/stl_algobase.h>
#include <bits/stl_iterator.h>
namespace std {
template<typename T, typename C, typename P>
__gnu_cxx::__normal_iterator<T, C> __find_if(__gnu_cxx::__normal_iterator<T, C> first, __gnu_cxx::__normal_iterator<T, C> last, P pred, random_access_iterator_tag)
{
    while (first != last && !pred(first))
        ++first;
    return first;
}
} // namespace std
