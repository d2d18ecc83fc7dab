// Stand-in for gritzko/myers-diff (not available offline): the type surface
// db/map/txt.hpp needs. No diff is computed by the checks.
#ifndef VERIF_SHIM_DMP_DIFF_HPP
#define VERIF_SHIM_DMP_DIFF_HPP
#include <cstddef>
#include <list>
enum class Operation { EQUAL, INSERT, DELETE };
template <class Text>
class MyersDiff {
   public:
    struct Range {
        typename Text::const_iterator from, till;
        size_t size() const { return size_t(till - from); }
    };
    struct Diff {
        Operation operation;
        Range text;
    };
    using Diffs = std::list<Diff>;
    MyersDiff(const Text&, const Text&) {}
    const Diffs& diffs() const { return diffs_; }

   private:
    Diffs diffs_;
};
#endif
