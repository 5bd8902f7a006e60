// Evaluates the contents and surface flag operations of every game.
// One case per line: game a b c surf surf2 texname face_native  -> one line of key=value
#include <common/bspfile.hh>
#include <common/settings.hh>
#include <iostream>
#include <sstream>
#include <string>
#include <fmt/core.h>
static std::string S(const contentflags_t &c) { return std::to_string(static_cast<unsigned long long>(c.flags)); }
int main()
{
    std::string line;
    std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        int gi, mir, cl;
        unsigned long long a_, b_, c_;
        int64_t surf, surf2, native;
        std::string tex, word;
        in >> gi >> a_ >> b_ >> c_ >> surf >> surf2 >> native >> mir >> cl >> tex >> word;
        const gamedef_t *g = std::data(gamedef_list())[gi];
        auto a = contentflags_t::make(a_), b = contentflags_t::make(b_), c = contentflags_t::make(c_);
        std::string o;
        auto put = [&](const char *k, const std::string &v) { o += k; o += '='; o += v; o += ' '; };
        auto bit = [&](const char *k, bool v) { put(k, v ? "1" : "0"); };
        auto tonative = [&](const contentflags_t &x) -> std::string {
            try {
                return std::to_string(g->contents_to_native(x));
            } catch (const std::exception &) {
                return "refused";
            }
        };
        put("native", tonative(a));
        std::string from;
        try {
            auto f = g->create_contents_from_native(static_cast<int32_t>(native));
            from = S(f);
            put("back", tonative(f));
        } catch (const std::exception &) {
            from = "refused";
            put("back", "refused");
        }
        put("from", from);
        bit("anysolid", a.is_any_solid(g));
        bit("solid", a.is_solid(g));
        bit("sky", a.is_sky(g));
        bit("liquid", a.is_liquid(g));
        bit("empty", a.is_empty(g));
        bit("clip", a.is_clip(g));
        bit("origin", a.is_origin(g));
        bit("detail", a.is_any_detail(g));
        bit("dsolid", a.is_detail_solid(g));
        bit("dwall", a.is_detail_wall(g));
        bit("dfence", a.is_detail_fence(g));
        bit("dillusionary", a.is_detail_illusionary(g));
        bit("fence", a.is_fence(g));
        bit("opaque0", g->contents_are_opaque(a, false));
        bit("opaque1", g->contents_are_opaque(a, true));
        bit("seals", g->contents_seals_map(a));
        bit("valid0", a.is_valid(g, false));
        bit("valid1", a.is_valid(g, true));
        put("index", std::to_string(a.visible_contents_index()));
        put("strongest", S(a.visible_contents()));
        auto m = a;
        m.make_valid(g);
        put("made", S(m));
        put("dk_solid", S(g->create_detail_solid_contents(a)));
        put("dk_wall", S(g->create_detail_wall_contents(a)));
        put("dk_fence", S(g->create_detail_fence_contents(a)));
        put("dk_illusionary", S(g->create_detail_illusionary_contents(a)));
        put("nodetail", S(g->clear_detail(a)));
        put("setdetail", S(g->set_detail(a)));
        put("emptyc", S(g->create_empty_contents()));
        put("solidc", S(g->create_solid_contents()));
        m = a;
        m.set_mirrored(mir == 0 ? std::nullopt : std::optional<bool>(mir == 2));
        put("mirrored", S(m));
        auto mi = m.mirror_inside();
        put("mirror", !mi ? "0" : *mi ? "2" : "1");
        m = a;
        m.set_clips_same_type(cl == 0 ? std::nullopt : std::optional<bool>(cl == 2));
        put("clips", S(m));
        auto ci = m.clips_same_type();
        put("clipsq", !ci ? "0" : *ci ? "2" : "1");
        put("leaf", S(g->contents_remap_for_export(a, gamedef_t::remap_type_t::leaf)));
        put("brush", S(g->contents_remap_for_export(a, gamedef_t::remap_type_t::brush)));
        bit("equal", a.equals(g, b));
        bit("cequal", g->contents_are_equal(a, b));
        bit("types", a.types_equal(b, g));
        bit("clipsame", a.will_clip_same_type(g, b));
        put("cluster", S(g->cluster_contents(a, b)));
        put("ab", S(g->combine_contents(a, b)));
        put("ba", S(g->combine_contents(b, a)));
        put("ab_c", S(g->combine_contents(g->combine_contents(a, b), c)));
        put("a_bc", S(g->combine_contents(a, g->combine_contents(b, c))));
        bit("see0", g->portal_can_see_through(a, b, false));
        bit("see1", g->portal_can_see_through(a, b, true));
        bit("ees0", g->portal_can_see_through(b, a, false));
        bit("ees1", g->portal_can_see_through(b, a, true));
        auto pv = g->portal_visible_contents(a, b);
        put("pv", S(pv));
        put("vp", S(g->portal_visible_contents(b, a)));
        bit("front_a", g->portal_generates_face(pv, a, SIDE_FRONT));
        bit("back_a", g->portal_generates_face(pv, a, SIDE_BACK));
        bit("front_b", g->portal_generates_face(pv, b, SIDE_FRONT));
        bit("back_b", g->portal_generates_face(pv, b, SIDE_BACK));
        bit("front_c", g->portal_generates_face(pv, c, SIDE_FRONT));
        bit("back_c", g->portal_generates_face(pv, c, SIDE_BACK));
        surfflags_t s{}, t{};
        s.native = static_cast<int32_t>(surf);
        t.native = static_cast<int32_t>(surf2);
        put("face", S(g->face_get_contents(tex, s, a)));
        for (int n = 0; n < 2; n++)
            for (int l = 0; l < 2; l++)
                bit(fmt::format("lit{}{}", n, l).c_str(), g->surf_is_lightmapped(s, tex.c_str(), n, l));
        bit("emissive", g->surf_is_emissive(s, tex.c_str()));
        bit("subdivided", g->surf_is_subdivided(s));
        bit("surfvalid", s.is_valid(g));
        bit("phong", g->surfflags_may_phong(s, t));
        bit("hintskip", g->texinfo_is_hintskip(s, tex));
        put("cword", std::to_string(static_cast<uint32_t>(g->contents_from_string(word))));
        put("sword", std::to_string(static_cast<uint32_t>(g->surfflags_from_string(word))));
        std::string d = a.to_string(g);
        for (auto &ch : d)
            if (ch == ' ')
                ch = '_';
        put("display", d);
        std::cout << o << "\n";
    }
}
