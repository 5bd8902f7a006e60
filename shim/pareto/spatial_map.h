// Minimal stand-in for alandefreitas/pareto's spatial_map (an empty submodule in this checkout).
// Only the operations qbsp/map.cc and bsputil/bsputil.cc use: emplace, find_intersection, begin/end.
// find_intersection(lo, hi) yields entries whose key lies inside the closed box [lo, hi].
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pareto
{
template<typename T, size_t N>
struct point
{
    std::array<T, N> c{};
    point() = default;
    template<typename... A>
        requires(sizeof...(A) == N)
    point(A... a)
        : c{static_cast<T>(a)...}
    {
    }
    T operator[](size_t i) const { return c[i]; }
    T &operator[](size_t i) { return c[i]; }
};

template<typename T, size_t N, typename V>
class spatial_map
{
public:
    using value_type = std::pair<point<T, N>, V>;

private:
    std::vector<value_type> items;
    std::unordered_multimap<int64_t, size_t> buckets; // by floor of the last coordinate
    static int64_t bucket(T v) { return static_cast<int64_t>(std::floor(v)); }

public:
    class iterator
    {
        friend class spatial_map;
        spatial_map *m = nullptr;
        std::vector<size_t> hits;
        size_t pos = 0;

    public:
        const value_type *operator->() const { return &m->items[hits[pos]]; }
        const value_type &operator*() const { return m->items[hits[pos]]; }
        iterator &operator++()
        {
            ++pos;
            return *this;
        }
        bool operator==(const iterator &o) const
        {
            bool e1 = pos >= hits.size(), e2 = o.pos >= o.hits.size();
            if (e1 || e2)
                return e1 == e2;
            return hits[pos] == o.hits[o.pos];
        }
        bool operator!=(const iterator &o) const { return !(*this == o); }
    };

    template<typename U>
    void emplace(const point<T, N> &p, U &&v)
    {
        buckets.emplace(bucket(p.c[N - 1]), items.size());
        items.emplace_back(p, static_cast<V>(v));
    }
    size_t size() const { return items.size(); }
    void clear()
    {
        items.clear();
        buckets.clear();
    }
    iterator end() { return {}; }
    iterator find_intersection(const point<T, N> &a, const point<T, N> &b)
    {
        point<T, N> lo, hi;
        for (size_t i = 0; i < N; i++) {
            lo.c[i] = a.c[i] < b.c[i] ? a.c[i] : b.c[i];
            hi.c[i] = a.c[i] < b.c[i] ? b.c[i] : a.c[i];
        }
        iterator it;
        it.m = this;
        for (int64_t k = bucket(lo.c[N - 1]); k <= bucket(hi.c[N - 1]); k++) {
            auto range = buckets.equal_range(k);
            for (auto q = range.first; q != range.second; ++q) {
                const auto &p = items[q->second].first;
                bool in = true;
                for (size_t i = 0; i < N && in; i++)
                    in = lo.c[i] <= p.c[i] && p.c[i] <= hi.c[i];
                if (in)
                    it.hits.push_back(q->second);
            }
        }
        return it;
    }
};
} // namespace pareto
