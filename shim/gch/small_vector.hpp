// Offline stand-in for gharveymn/small_vector, which cannot be fetched here.
// It has the same observable container semantics as the real class (a contiguous
// sequence) but always stores on the heap, which is also what lets ASan see
// out-of-range accesses that inline storage would hide.
#ifndef VERIF_SHIM_GCH_SMALL_VECTOR_HPP
#define VERIF_SHIM_GCH_SMALL_VECTOR_HPP
#include <compare>
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <vector>
namespace gch
{
    template <typename T_, std::size_t inline_capacity_ = 4, typename Alloc_ = std::allocator<T_>>
    class small_vector : public std::vector<T_, Alloc_>
    {
    public:
        using std::vector<T_, Alloc_>::vector;
        small_vector() = default;
        small_vector(const small_vector &) = default;
        small_vector(small_vector &&) = default;
        auto operator=(const small_vector &) -> small_vector & = default;
        auto operator=(small_vector &&) -> small_vector & = default;
        auto operator=(std::initializer_list<T_> l) -> small_vector &
        {
            std::vector<T_, Alloc_>::operator=(l);
            return *this;
        }
        auto append(const small_vector & o) -> small_vector &
        {
            this->insert(this->end(), o.begin(), o.end());
            return *this;
        }
    };
}
#endif
