// rtree against a brute-force model: searches, tree structure (parsed back from the exported text), copies,
// moves, bulk loading, value lifetime.
#include "common.hpp"
#include <mdds/rtree.hpp>
#include <array>
#include <iostream>

using namespace vh;
using mdds::detail::rtree::search_type;

namespace {

template<std::size_t D, std::size_t Min, std::size_t Max, bool F, std::size_t R, std::size_t Depth = 100>
struct traits
{
    static constexpr std::size_t dimensions = D;
    static constexpr std::size_t min_node_size = Min;
    static constexpr std::size_t max_node_size = Max;
    static constexpr std::size_t max_tree_depth = Depth;
    static constexpr bool enable_forced_reinsertion = F;
    static constexpr std::size_t reinsertion_size = R;
};

struct MoveOnly
{
    std::unique_ptr<int> p;
    Tracked t;
    MoveOnly(int v) : p(new int(v)), t(v)
    {}
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
};

template<typename V>
V mkv(int id)
{
    if constexpr (std::is_same_v<V, std::string>)
        return "value number " + std::to_string(id);
    else
        return V(id);
}
inline int idv(int v)
{
    return v;
}
inline int idv(const std::string& s)
{
    VCHECK(s.size() > 13, "stored value is mangled");
    return std::stoi(s.substr(13));
}
inline int idv(const Tracked& t)
{
    Ledger::use(&t);
    VCHECK(!t.moved, "stored value has been moved from");
    return t.v;
}
inline int idv(const MoveOnly& t)
{
    VCHECK(bool(t.p), "stored value has been moved from");
    VCHECK(*t.p == t.t.v, "stored value is mangled");
    return t.t.v;
}

template<typename K, typename V, typename T>
struct Fixture
{
    using tree = mdds::rtree<K, V, T>;
    using point = typename tree::point_type;
    using extent = typename tree::extent_type;
    static constexpr std::size_t D = T::dimensions;
    using Pt = std::array<int, D>;
    struct Box
    {
        Pt s, e;
        bool operator==(const Box& o) const
        {
            return s == o.s && e == o.e;
        }
        bool operator<(const Box& o) const
        {
            return s != o.s ? s < o.s : e < o.e;
        }
    };
    struct Item
    {
        Box b;
        int v;
        bool operator<(const Item& o) const
        {
            return b == o.b ? v < o.v : b < o.b;
        }
        bool operator==(const Item& o) const
        {
            return b == o.b && v == o.v;
        }
    };
    using Model = std::vector<Item>;

    Rng& r;
    int span, maxlen, next_id = 1;
    bool points_only;

    Fixture(Rng& _r) : r(_r)
    {
        span = r.pick<int>({3, 8, 20, 60});
        maxlen = r.pick<int>({0, 1, 3, 10});
        points_only = r.chance(10);
    }

    // Coordinates are scaled for non-integer keys so that halves are used too.
    static K k(int x)
    {
        if constexpr (std::is_floating_point_v<K>)
            return static_cast<K>(x) / 2;
        else
            return static_cast<K>(x);
    }
    static int ik(K x)
    {
        if constexpr (std::is_floating_point_v<K>)
            return static_cast<int>(std::lround(x * 2));
        else
            return static_cast<int>(x);
    }
    static point pt(const Pt& p)
    {
        point q;
        for (std::size_t i = 0; i < D; ++i)
            q.d[i] = k(p[i]);
        return q;
    }
    static Pt ipt(const point& p)
    {
        Pt q;
        for (std::size_t i = 0; i < D; ++i)
        {
            q[i] = ik(p.d[i]);
            VCHECK(k(q[i]) == p.d[i], "coordinate ", p.d[i], " was never used");
        }
        return q;
    }
    static extent ex(const Box& b)
    {
        return extent(pt(b.s), pt(b.e));
    }
    static Box ibox(const extent& e)
    {
        return Box{ipt(e.start), ipt(e.end)};
    }
    static std::string str(const Box& b)
    {
        std::string s = "[";
        for (std::size_t i = 0; i < D; ++i)
            s += std::to_string(b.s[i]) + ":" + std::to_string(b.e[i]) + (i + 1 < D ? "," : "]");
        return s;
    }

    Pt rnd_pt()
    {
        Pt p;
        for (auto& x : p)
            x = int(r.range(std::is_unsigned_v<K> ? 0 : -span / 2, span));
        return p;
    }
    Box rnd_box(bool allow_big = false)
    {
        Box b;
        b.s = b.e = rnd_pt();
        if (!points_only && !r.chance(20))
            for (auto& x : b.e)
                x += int(r.range(0, allow_big && r.chance(30) ? span : maxlen));
        return b;
    }
    static bool overlap(const Box& a, const Box& b)
    {
        for (std::size_t i = 0; i < D; ++i)
            if (a.e[i] < b.s[i] || b.e[i] < a.s[i])
                return false;
        return true;
    }

    // ---- structure -------------------------------------------------------------------------------------
    struct Node
    {
        std::string id, parent;
        int level = 0;
        char type = '?'; // r leaf dir, n nonleaf dir, v value
        std::string extent;
        std::vector<int> kids;
    };

    std::size_t tree_depth = 0; // depth of the value nodes as of the last structure check
    std::vector<Node> last_nodes; // nodes in depth-first order as of the last structure check
    std::vector<typename tree::node_properties> last_props;

    void structure(const tree& t, const Model& m, bool check_min, const char* when)
    {
        std::vector<typename tree::node_properties> props;
        t.walk([&](const typename tree::node_properties& p) { props.push_back(p); });
        std::string text = t.export_tree(tree::export_tree_type::formatted_node_properties);
        std::vector<Node> nodes;
        std::vector<int> stack;
        std::istringstream is(text);
        std::string line;
        while (std::getline(is, line))
        {
            std::size_t ind = line.find_first_not_of(' ');
            VCHECK(ind != std::string::npos && ind % 4 == 0, when, ": export indentation");
            Node n;
            n.level = int(ind / 4);
            std::size_t a = line.find("node: ") + 6, b = line.find("; parent: "), c = line.find("; type: "),
                        d = line.find("; extent: ");
            VCHECK(b != std::string::npos && c != std::string::npos && d != std::string::npos, "export line: ", line);
            n.id = line.substr(a, b - a);
            n.parent = line.substr(b + 10, c - b - 10);
            std::string ty = line.substr(c + 8, d - c - 8);
            n.type = ty == "directory-leaf" ? 'l' : ty == "directory-nonleaf" ? 'n' : ty == "value" ? 'v' : '?';
            VCHECK(n.type != '?', when, ": node of type ", ty);
            n.extent = line.substr(d + 10);
            int me = int(nodes.size());
            VCHECK(n.level <= int(stack.size()), when, ": export nesting");
            stack.resize(n.level);
            if (!stack.empty())
            {
                nodes[stack.back()].kids.push_back(me);
                VCHECK(n.parent == nodes[stack.back()].id, when, ": node ", n.id, " records parent ", n.parent, " but is a child of ", nodes[stack.back()].id, "\n", text);
            }
            else
                VCHECK(me == 0 && n.parent == "(*, *)", when, ": root of the export");
            stack.push_back(me);
            nodes.push_back(std::move(n));
        }
        VCHECK(nodes.size() == props.size(), when, ": walk visits ", props.size(), " nodes, export shows ", nodes.size());
        VCHECK(!nodes.empty() && nodes[0].type != 'v', when, ": the root is a directory");
        int leaf_level = -1;
        std::vector<Item> walked;
        for (std::size_t i = 0; i < nodes.size(); ++i)
        {
            const Node& n = nodes[i];
            auto pt = props[i].type;
            char wt = pt == tree::node_type::directory_leaf ? 'l' : pt == tree::node_type::directory_nonleaf ? 'n' : pt == tree::node_type::value ? 'v' : '?';
            VCHECK(wt == n.type, when, ": walk and export disagree on node ", i);
            VCHECK(props[i].extent.to_string() == n.extent, when, ": walk and export disagree on an extent");
            if (n.type == 'v')
            {
                VCHECK(n.kids.empty(), when, ": value node with children");
                if (leaf_level < 0)
                    leaf_level = n.level;
                VCHECK(leaf_level == n.level, when, ": values at depths ", leaf_level, " and ", n.level, " (the tree is not balanced)\n", text);
                continue;
            }
            for (int c : n.kids)
            {
                char want = n.type == 'l' ? 'v' : 'd';
                char have = nodes[c].type == 'v' ? 'v' : 'd';
                VCHECK(want == have, when, ": wrong kind of child under ", n.id, "\n", text);
            }
            VCHECK(n.kids.size() <= T::max_node_size, when, ": directory ", n.id, " has ", n.kids.size(), " children, the maximum is ", T::max_node_size, "\n", text);
            if (i == 0)
            {
                if (n.type == 'n')
                    VCHECK(n.kids.size() >= 2, when, ": non-leaf root with ", n.kids.size(), " children\n", text);
            }
            else if (check_min)
                VCHECK(n.kids.size() >= T::min_node_size, when, ": directory ", n.id, " has ", n.kids.size(), " children, the minimum is ", T::min_node_size, "\n", text);
            else
                VCHECK(n.kids.size() >= 1, when, ": empty directory ", n.id);
            // tight extent
            if (!n.kids.empty())
            {
                auto bb = props[n.kids[0]].extent;
                for (int c : n.kids)
                    for (std::size_t d = 0; d < D; ++d)
                    {
                        bb.start.d[d] = std::min(bb.start.d[d], props[c].extent.start.d[d]);
                        bb.end.d[d] = std::max(bb.end.d[d], props[c].extent.end.d[d]);
                    }
                VCHECK(bb == props[i].extent, when, ": directory ", n.id, " has extent ", props[i].extent.to_string(), " but its children span ", bb.to_string(), "\n", text);
            }
        }
        for (auto& p : props)
            if (p.type == tree::node_type::value)
                walked.push_back(Item{ibox(p.extent), 0});
        Model mm = m;
        for (auto& x : mm)
            x.v = 0;
        std::sort(mm.begin(), mm.end());
        std::sort(walked.begin(), walked.end());
        VCHECK(walked == mm, when, ": walk() does not visit exactly the stored extents");
        tree_depth = leaf_level < 0 ? 0 : leaf_level;
        try
        {
            typename tree::integrity_check_properties ip;
            ip.throw_on_first_error = nodes.size() % 2 != 0; // both modes must accept the tree
            ip.error_on_min_node_size = check_min;
            // its report on underfilled directories goes to stdout
            std::ostringstream sink;
            auto* old = std::cout.rdbuf(sink.rdbuf());
            try
            {
                t.check_integrity(ip);
            }
            catch (...)
            {
                std::cout.rdbuf(old);
                throw;
            }
            std::cout.rdbuf(old);
        }
        catch (const std::exception& e)
        {
            violation(cat(when, ": check_integrity reports: ", e.what()));
        }
        count("structure-checks");
        count("nodes-inspected", nodes.size());
        last_nodes = std::move(nodes);
        last_props = std::move(props);
        if (tree_depth >= 3)
            count("trees-of-depth-3-or-more");
    }

    // ---- exports for viewers ---------------------------------------------------------------------------
    static bool near(double a, double b, double scale)
    {
        return std::isfinite(a) && std::isfinite(b) && std::abs(a - b) <= 0.06 + 2e-5 * scale;
    }

    // Reads a number after the given attribute name.
    static double attr(const std::string& line, const std::string& name)
    {
        std::size_t p = line.find(" " + name + "=\"");
        VCHECK(p != std::string::npos, "SVG: no ", name, " in: ", line);
        p += name.size() + 3;
        std::size_t e = line.find('"', p);
        std::string v = line.substr(p, e - p);
        char* end = nullptr;
        double d = std::strtod(v.c_str(), &end);
        VCHECK(!v.empty() && *end == 0 && std::isfinite(d), "SVG: ", name, " is not a number: ", line);
        return d;
    }

    void exports(const tree& t, const Model& m, bool check_min, const char* when)
    {
        structure(t, m, check_min, when);
        using et = typename tree::export_tree_type;
        if constexpr (D != 2)
        {
            for (et mode : {et::extent_as_obj, et::extent_as_svg})
            {
                bool thrown = false;
                try
                {
                    t.export_tree(mode);
                }
                catch (const mdds::size_error&)
                {
                    thrown = true;
                }
                VCHECK(thrown, when, ": a tree of ", D, " dimensions cannot be drawn");
            }
            count("refused-exports", 2);
            return;
        }
        else
        {
            const auto& root = last_props[0].extent;
            const std::size_t n = last_nodes.size();
            double rx = double(root.start.d[0]), ry = double(root.start.d[1]);
            double rw = double(root.end.d[0]) - rx, rh = double(root.end.d[1]) - ry;
            double big = std::abs(rx) + std::abs(ry) + rw + rh;
            {
                std::istringstream is(t.export_tree(et::extent_as_obj));
                std::string line;
                double unit = -1;
                for (std::size_t i = 0; i < n; ++i)
                {
                    const auto& e = last_props[i].extent;
                    const bool pt = e.start == e.end;
                    VCHECK(bool(std::getline(is, line)), when, ": OBJ has fewer objects than there are nodes");
                    std::string want = cat("o extent ", i, " (level ", last_nodes[i].level, ") ");
                    if (!pt)
                        want += e.start.to_string() + " - " + e.end.to_string();
                    VCHECK(line.compare(0, want.size(), want) == 0 && (pt || line.size() == want.size()), when, ": OBJ object line is ", line, " instead of ", want);
                    double v[4][3];
                    for (auto& q : v)
                    {
                        VCHECK(bool(std::getline(is, line)) && line.compare(0, 2, "v ") == 0, when, ": OBJ vertex expected: ", line);
                        std::istringstream ls(line.substr(2));
                        VCHECK(bool(ls >> q[0] >> q[1] >> q[2]), when, ": OBJ vertex: ", line);
                        double want_y = last_nodes[i].level == 0 ? 0 : unit < 0 ? q[1] / last_nodes[i].level : unit * last_nodes[i].level;
                        VCHECK(near(q[1], want_y, std::abs(want_y)), when, ": OBJ: a node of level ", last_nodes[i].level, " is drawn at height ", q[1]);
                        if (last_nodes[i].level > 0 && unit < 0)
                        {
                            unit = q[1] / last_nodes[i].level;
                            VCHECK((unit > 0) == (rw + rh > 0), when, ": OBJ: height of a level is ", unit);
                        }
                    }
                    double x0 = double(e.start.d[0]), z0 = double(e.start.d[1]), x1 = double(e.end.d[0]), z1 = double(e.end.d[1]);
                    if (pt)
                    {
                        // a point is drawn as a small square around it
                        for (auto& q : v)
                            VCHECK(std::abs(q[0] - x0) <= 1.01 + 2e-5 * big && std::abs(q[2] - z0) <= 1.01 + 2e-5 * big, when, ": OBJ: point drawn away from where it is");
                        VCHECK(v[0][0] <= x0 + 2e-5 * big && v[0][2] <= z0 + 2e-5 * big && v[2][0] >= x0 - 2e-5 * big && v[2][2] >= z0 - 2e-5 * big, when, ": OBJ: the square of a point does not enclose it");
                        x0 = v[0][0], z0 = v[0][2], x1 = v[2][0], z1 = v[2][2];
                        count("points-exported");
                    }
                    const double wv[4][2] = {{x0, z0}, {x0, z1}, {x1, z1}, {x1, z0}};
                    for (int j = 0; j < 4; ++j)
                        VCHECK(near(v[j][0], wv[j][0], big) && near(v[j][2], wv[j][1], big), when, ": OBJ: vertex ", j, " of node ", i, " (", e.to_string(), ") is at ", v[j][0], ",", v[j][2]);
                    VCHECK(bool(std::getline(is, line)) && line == cat("f ", i * 4 + 1, " ", i * 4 + 2, " ", i * 4 + 3, " ", i * 4 + 4), when, ": OBJ face of node ", i, " is ", line);
                }
                VCHECK(!std::getline(is, line), when, ": OBJ has more lines than there are nodes: ", line);
                count("obj-exports");
            }
            {
                std::istringstream is(t.export_tree(et::extent_as_svg));
                std::string line, look[2];
                VCHECK(bool(std::getline(is, line)) && line.compare(0, 5, "<?xml") == 0, when, ": SVG prologue");
                VCHECK(bool(std::getline(is, line)) && line.compare(0, 9, "<!DOCTYPE") == 0, when, ": SVG prologue");
                VCHECK(bool(std::getline(is, line)) && line.compare(0, 5, "<svg ") == 0, when, ": SVG root");
                double W = attr(line, "width"), H = attr(line, "height"), zoom = 1;
                if (rw + rh > 0)
                {
                    zoom = (W + H) / (rw + rh);
                    VCHECK(W + H >= 1590 && W + H <= 2010, when, ": SVG: the canvas is ", W, " by ", H);
                }
                double sc = (big + 1) * zoom;
                VCHECK(near(W, rw * zoom, sc) && near(H, rh * zoom, sc), when, ": SVG: the canvas ", W, " by ", H, " is not the root ", root.to_string(), " to scale");
                for (std::size_t i = 1; i < n; ++i)
                {
                    const auto& e = last_props[i].extent;
                    VCHECK(bool(std::getline(is, line)), when, ": SVG has fewer shapes than there are nodes");
                    double x = (double(e.start.d[0]) - rx) * zoom, y = (double(e.start.d[1]) - ry) * zoom;
                    if (e.start == e.end)
                    {
                        VCHECK(line.find("<circle ") != std::string::npos, when, ": SVG: point drawn as ", line);
                        VCHECK(near(attr(line, "cx"), x, sc) && near(attr(line, "cy"), y, sc), when, ": SVG: ", e.to_string(), " drawn as ", line, " want ", x, ",", y);
                        double rad = attr(line, "r");
                        VCHECK(rad > 0 || rw + rh == 0, when, ": SVG: circle without a radius: ", line);
                    }
                    else
                    {
                        VCHECK(line.find("<rect ") != std::string::npos, when, ": SVG: box drawn as ", line);
                        double w = (double(e.end.d[0]) - double(e.start.d[0])) * zoom, h = (double(e.end.d[1]) - double(e.start.d[1])) * zoom;
                        VCHECK(near(attr(line, "x"), x, sc) && near(attr(line, "y"), y, sc), when, ": SVG: ", e.to_string(), " drawn as ", line, " want ", x, ",", y);
                        VCHECK(near(attr(line, "width"), w, sc) && near(attr(line, "height"), h, sc), when, ": SVG: ", e.to_string(), " drawn as ", line, " want ", w, " by ", h);
                    }
                    std::size_t p = line.find(" stroke=");
                    VCHECK(p != std::string::npos && line.size() > 2 && line.substr(line.size() - 2) == "/>", when, ": SVG shape: ", line);
                    attr(line, "stroke-width");
                    std::string& l = look[last_nodes[i].type == 'v'];
                    if (l.empty())
                        l = line.substr(p);
                    VCHECK(l == line.substr(p), when, ": SVG: nodes of one kind are drawn in different styles: ", line);
                    count("shapes-checked");
                }
                VCHECK(look[0].empty() || look[0] != look[1], when, ": SVG: values and directories look the same");
                VCHECK(bool(std::getline(is, line)) && line == "</svg>", when, ": SVG has more shapes than there are nodes: ", line);
                VCHECK(!std::getline(is, line), when, ": text after the SVG: ", line);
                count("svg-exports");
                if (rw + rh == 0)
                    count("exports-of-degenerate-trees");
            }
        }
    }

    template<typename Res>
    std::vector<Item> collect(Res& res, const char* when)
    {
        std::vector<Item> got;
        std::size_t depth = 0;
        auto it = res.begin(), e = res.end();
        for (; !(it == e); ++it)
        {
            got.push_back(Item{ibox(it.extent()), idv(*it)});
            VCHECK(&*it == it.operator->(), "iterator arrow");
            if (depth == 0)
                depth = it.depth();
            VCHECK(depth == it.depth() && depth > 0, when, ": results at different depths");
        }
        for (std::size_t i = got.size(); i > 0; --i)
        {
            --it;
            VCHECK(idv(*it) == got[i - 1].v, when, ": reverse iteration");
        }
        VCHECK(it == res.begin(), when, ": reverse iteration ends at begin()");
        std::sort(got.begin(), got.end());
        return got;
    }

    void search(tree& t, const Model& m, const Box& q, const char* when)
    {
        std::vector<Item> ov, mt;
        for (auto& x : m)
        {
            if (overlap(x.b, q))
                ov.push_back(x);
            if (x.b == q)
                mt.push_back(x);
        }
        std::sort(ov.begin(), ov.end());
        std::sort(mt.begin(), mt.end());
        const tree& ct = t;
        auto cmp = [&](const std::vector<Item>& got, const std::vector<Item>& exp, const char* kind) {
            VCHECK(got == exp, when, ": ", kind, " search of ", str(q), " yields ", got.size(), " values, expected ", exp.size());
            count("searches");
            count("values-found", got.size());
        };
        auto r1 = ct.search(ex(q), search_type::overlap);
        cmp(collect(r1, when), ov, "overlap");
        auto r2 = t.search(ex(q), search_type::overlap);
        cmp(collect(r2, when), ov, "overlap (mutable)");
        auto r3 = ct.search(ex(q), search_type::match);
        cmp(collect(r3, when), mt, "match");
        auto r4 = t.search(ex(q), search_type::match);
        cmp(collect(r4, when), mt, "match (mutable)");
        if (q.s == q.e)
        {
            auto p1 = ct.search(pt(q.s), search_type::overlap);
            cmp(collect(p1, when), ov, "point overlap");
            auto p2 = t.search(pt(q.s), search_type::overlap);
            cmp(collect(p2, when), ov, "point overlap (mutable)");
            auto p3 = ct.search(pt(q.s), search_type::match);
            cmp(collect(p3, when), mt, "point match");
            auto p4 = t.search(pt(q.s), search_type::match);
            cmp(collect(p4, when), mt, "point match (mutable)");
        }
    }

    void basics(const tree& t, const Model& m, const char* when)
    {
        VCHECK(t.size() == m.size(), when, ": size ", t.size(), " expected ", m.size());
        VCHECK(t.empty() == m.empty(), when, ": empty()");
        if (!m.empty())
        {
            Box b = m[0].b;
            for (auto& x : m)
                for (std::size_t d = 0; d < D; ++d)
                {
                    b.s[d] = std::min(b.s[d], x.b.s[d]);
                    b.e[d] = std::max(b.e[d], x.b.e[d]);
                }
            VCHECK(t.extent() == ex(b), when, ": extent() is ", t.extent().to_string(), " expected ", ex(b).to_string());
        }
        if (m.size() > 1)
        {
            u64 h = 0;
            for (auto& x : m)
            {
                u64 z = 7;
                for (std::size_t d = 0; d < D; ++d)
                    z = hcomb(hcomb(z, u64(x.b.s[d])), u64(x.b.e[d]));
                h += z;
            }
            seen(h);
        }
    }

    void content(tree& t, const Model& m, const char* when)
    {
        basics(t, m, when);
        Box all;
        all.s.fill(-1000);
        all.e.fill(1000);
        if (std::is_unsigned_v<K>)
            all.s.fill(0);
        if (sizeof(K) == 1)
        {
            all.s.fill(-128);
            all.e.fill(127);
        }
        search(t, m, all, when);
        search(t, m, rnd_box(true), when);
        Box p;
        p.s = p.e = rnd_pt();
        search(t, m, p, when);
        if (!m.empty())
            search(t, m, m[r.below(m.size())].b, when);
    }

    void insert(tree& t, Model& m)
    {
        Box b = !m.empty() && r.chance(15) ? m[r.below(m.size())].b : rnd_box();
        insert_box(t, m, b);
    }
    void insert_box(tree& t, Model& m, const Box& b)
    {
        int id = next_id++;
        op("insert ", str(b), " #", id);
        if constexpr (std::is_copy_constructible_v<V>)
        {
            if (r.chance(50))
            {
                V v = mkv<V>(id);
                if (b.s == b.e && r.chance(60))
                    t.insert(pt(b.s), v);
                else
                    t.insert(ex(b), v);
                VCHECK(idv(v) == id, "inserting an lvalue leaves it alone");
                m.push_back(Item{b, id});
                return;
            }
        }
        if (b.s == b.e && r.chance(60))
            t.insert(pt(b.s), mkv<V>(id));
        else
            t.insert(ex(b), mkv<V>(id));
        m.push_back(Item{b, id});
        count("inserts");
    }

    void erase_one(tree& t, Model& m)
    {
        // find the victim through a search that yields several candidates
        Item victim = m[r.below(m.size())];
        op("erase ", str(victim.b), " #", victim.v);
        Box q = victim.b;
        if (r.chance(50))
            for (std::size_t d = 0; d < D; ++d)
                q.e[d] += int(r.range(0, 3));
        int gone = 0;
        auto pick = [&](auto&& res, auto& tr) {
            auto it = res.begin(), e = res.end();
            for (; !(it == e); ++it)
                if (idv(*it) == victim.v)
                {
                    gone = 1;
                    tr.erase(it);
                    return;
                }
        };
        const tree& ct = t;
        if (r.chance(50))
            pick(ct.search(ex(q), search_type::overlap), t);
        else
            pick(t.search(ex(q), search_type::overlap), t);
        VCHECK(gone == 1, "a stored value cannot be found by a search over its extent: ", str(victim.b), " #", victim.v);
        m.erase(std::find(m.begin(), m.end(), victim));
        count("erases");
    }

    void run(int kind)
    {
        bool check_min = true;
        {
            tree t;
            Model m;
            basics(t, m, "new tree");
            structure(t, m, true, "new tree");
            if (kind == 4)
            {
                span = r.pick<int>({0, 1, 3, 40, 900, 1700, 6000});
                maxlen = r.pick<int>({0, 1, 10, 200});
                exports(t, m, true, "new tree");
            }
            // a point made from fewer coordinates than there are dimensions has zeros in the rest
            {
                std::unique_ptr<char[]> raw(new char[sizeof(point) + alignof(point)]);
                std::memset(raw.get(), 0x5a, sizeof(point) + alignof(point));
                point* q = new (raw.get()) point({k(3)});
                VCHECK(q->d[0] == k(3), "first coordinate");
                for (std::size_t d = 1; d < D; ++d)
                    VCHECK(q->d[d] == K(), "a coordinate that is not given is zero");
                bool thrown = false;
                try
                {
                    if constexpr (D == 1)
                        point x({k(1), k(2)});
                    else if constexpr (D == 2)
                        point x({k(1), k(2), k(3)});
                    else
                        point x({k(1), k(2), k(3), k(4)});
                }
                catch (const std::range_error&)
                {
                    thrown = true;
                }
                VCHECK(thrown, "too many coordinates must be rejected");
            }
            int steps = int(r.range(10, kind == 1 ? 260 : 150));
            if (T::max_node_size > 20)
                steps = int(r.range(10, 400));
            int phase_len = int(r.range(5, 80)), phase = 0, left = phase_len;
            if (kind == 3 || (kind == 4 && r.chance(30)))
            {
                bulk(t, m);
                check_min = false;
                basics(t, m, "bulk loaded");
                structure(t, m, false, "bulk loaded");
                content(t, m, "bulk loaded");
                steps = int(r.range(0, 80));
                phase = int(r.below(2));
            }
            for (int i = 0; i < steps; ++i)
            {
                if (left-- <= 0)
                {
                    phase = int(r.below(4));
                    left = int(r.range(5, 80));
                }
                unsigned p_ins = phase == 0 ? 90 : phase == 1 ? 10 : 50;
                if (kind == 4 && r.chance(10))
                    exports(t, m, check_min, "after step");
                if (kind == 2 && r.chance(12))
                {
                    copies(t, m, check_min);
                    continue;
                }
                if (r.chance(1) && r.chance(40))
                {
                    op("clear");
                    t.clear();
                    m.clear();
                    check_min = true;
                }
                else if (m.empty() || r.chance(p_ins))
                    insert(t, m);
                else if (r.chance(92))
                    erase_one(t, m);
                else if (std::is_same_v<V, int> || std::is_same_v<V, Tracked>)
                {
                    // a value may be changed in place through a mutable search result
                    Item& x = m[r.below(m.size())];
                    auto res = t.search(ex(x.b), search_type::match);
                    for (auto it = res.begin(); !(it == res.end()); ++it)
                        if (idv(*it) == x.v)
                        {
                            x.v = next_id++;
                            *it = mkv<V>(x.v);
                            break;
                        }
                    op("modify #", x.v);
                }
                basics(t, m, "after step");
                if (r.chance(kind == 1 ? 35 : kind == 3 ? 30 : 8))
                    structure(t, m, check_min, "after step");
                if (kind != 1 ? r.chance(60) : r.chance(10))
                    content(t, m, "after step");
            }
            structure(t, m, check_min, "at the end");
            content(t, m, "at the end");
            if (kind == 4)
                exports(t, m, check_min, "at the end");
            // take everything out again
            if (r.chance(50))
            {
                while (!m.empty())
                {
                    erase_one(t, m);
                    basics(t, m, "while emptying");
                    if (r.chance(kind == 1 ? 35 : 10))
                        structure(t, m, check_min, "while emptying");
                    if (r.chance(15))
                        content(t, m, "while emptying");
                }
                structure(t, m, true, "emptied");
            }
        }
        expect_no_live("rtree destroyed");
    }

    void bulk(tree& t, Model& m)
    {
        typename tree::bulk_loader ld;
        int n = int(r.skewed(200));
        if (r.chance(20))
            n = int(T::max_node_size) + int(r.range(-1, 2)); // around the single-directory limit
        op("bulk load ", n);
        for (int i = 0; i < n; ++i)
        {
            Box b = !m.empty() && r.chance(15) ? m[r.below(m.size())].b : rnd_box();
            int id = next_id++;
            bool done = false;
            if constexpr (std::is_copy_constructible_v<V>)
                if (r.chance(50))
                {
                    V v = mkv<V>(id);
                    if (b.s == b.e)
                        ld.insert(pt(b.s), v);
                    else
                        ld.insert(ex(b), v);
                    VCHECK(idv(v) == id, "inserting an lvalue leaves it alone");
                    done = true;
                }
            if (!done)
            {
                if (b.s == b.e)
                    ld.insert(pt(b.s), mkv<V>(id));
                else
                    ld.insert(ex(b), mkv<V>(id));
            }
            m.push_back(Item{b, id});
        }
        t = ld.pack();
        count("bulk-loads");
        count("bulk-loaded-values", n);
    }

    void copies(tree& t, Model& m, bool check_min)
    {
        switch (r.below(5))
        {
            case 0:
                if constexpr (std::is_copy_constructible_v<V>)
                {
                    op("copy, mutate copy and source");
                    tree c(t);
                    Model cm = m;
                    structure(c, cm, check_min, "copy");
                    content(c, cm, "copy");
                    for (int i = 0; i < 6; ++i)
                    {
                        if (!cm.empty() && r.chance(50))
                            erase_one(c, cm);
                        else
                            insert(c, cm);
                        if (!m.empty() && r.chance(50))
                            erase_one(t, m);
                        else
                            insert(t, m);
                    }
                    structure(c, cm, check_min, "copy after mutation");
                    content(c, cm, "copy after mutation");
                    structure(t, m, check_min, "source after mutation");
                    content(t, m, "source after mutation");
                    if (r.chance(50))
                    {
                        t = c;
                        m = cm;
                        if (r.chance(50))
                        {
                            c.clear();
                            cm.clear();
                        }
                        content(c, cm, "assigned-from tree");
                    }
                    count("copies");
                }
                break;
            case 1:
            {
                op("move-construct");
                tree c(std::move(t));
                VCHECK(t.empty() && t.size() == 0, "a moved-from tree is empty");
                structure(c, m, check_min, "move-constructed");
                content(c, m, "move-constructed");
                Model tm;
                insert(t, tm);
                insert(t, tm);
                structure(t, tm, true, "moved-from tree used again");
                content(t, tm, "moved-from tree used again");
                t = std::move(c);
                count("moves");
                break;
            }
            case 2:
            {
                op("move-assign over content");
                tree c;
                Model cm;
                for (int i = int(r.below(20)); i >= 0; --i)
                    insert(c, cm);
                c = std::move(t);
                structure(c, m, check_min, "move-assigned");
                content(c, m, "move-assigned");
                t.swap(c);
                count("moves");
                break;
            }
            case 3:
            {
                op("swap");
                tree c;
                Model cm;
                for (int i = int(r.below(30)); i > 0; --i)
                    insert(c, cm);
                c.swap(t);
                structure(c, m, check_min, "swapped");
                structure(t, cm, true, "swapped");
                content(c, m, "swapped");
                content(t, cm, "swapped");
                for (int i = 0; i < 4; ++i)
                {
                    if (!m.empty())
                        erase_one(c, m);
                    insert(t, cm);
                }
                structure(c, m, check_min, "mutated after swap");
                structure(t, cm, true, "mutated after swap");
                t.swap(c);
                count("swaps");
                break;
            }
            case 4:
            {
                op("self-assignment");
                if constexpr (std::is_copy_constructible_v<V>)
                {
                    auto& a = t;
                    t = a;
                }
                t.swap(t);
                break;
            }
        }
        structure(t, m, check_min, "after copies");
        content(t, m, "after copies");
    }
};

void dispatch(Rng& r, int kind)
{
    dispatch_types<
        Fixture<int, int, traits<1, 2, 5, false, 2>>, Fixture<int, std::string, traits<2, 2, 5, false, 2>>,
        Fixture<std::int16_t, Tracked, traits<2, 2, 5, true, 2>>, Fixture<double, Tracked, traits<3, 3, 8, true, 3>>,
        Fixture<double, int, traits<2, 1, 2, false, 1>>, Fixture<int, MoveOnly, traits<2, 2, 4, true, 1>>,
        Fixture<double, int, mdds::detail::rtree::default_rtree_traits>, Fixture<float, int, traits<2, 2, 4, false, 2>>,
        Fixture<unsigned, int, traits<1, 2, 6, true, 3>>, Fixture<long, Tracked, traits<2, 3, 6, true, 2>>>(
        r, [&]<typename F>() { F(r).run(kind); });
}

} // namespace

int main(int argc, char** argv)
{
    return drive(
        argc, argv,
        {
            {"rt_search", 3, [](Rng& r) { dispatch(r, 0); }},
            {"rt_struct", 3, [](Rng& r) { dispatch(r, 1); }},
            {"rt_copy", 3, [](Rng& r) { dispatch(r, 2); }},
            {"rt_bulk", 3, [](Rng& r) { dispatch(r, 3); }},
            {"rt_export", 3, [](Rng& r) { dispatch(r, 4); }},
        });
}
