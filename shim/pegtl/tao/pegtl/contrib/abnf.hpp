#ifndef VERIF_SHIM_PEGTL_ABNF
#define VERIF_SHIM_PEGTL_ABNF
#include <tao/pegtl.hpp>
namespace tao
{
    namespace pegtl
    {
        namespace abnf
        {
            struct ALPHA : sor<range<'a', 'z'>, range<'A', 'Z'> > {
            };
            struct DIGIT : range<'0', '9'> {
            };
            struct HEXDIG : sor<range<'0', '9'>, range<'a', 'f'>, range<'A', 'F'> > {
            };
            struct VCHAR : range<0x21, 0x7E> {
            };
            struct WSP : one<' ', '\t'> {
            };
        }
    }
}
#endif
