// The operands: `all(ctx, a, b)` and `what` are those of the includer.
void shapes(mc::Ctx& ctx)
{
    int n = ctx.tier(4, 6);
    size_t m = ctx.range(0, n, "rows"), k = ctx.range(0, n, "inner"), c = ctx.range(0, n, "columns");
    ctx.shard();
    int x = ctx.choose(nb_structured, "pattern of A"), y = ctx.choose(nb_structured, "pattern of B");
    if (!ctx.thorough() && x > 1 && y > 1 && x != y) throw mc::Prune();
    all(ctx, structured(m, k, x), structured(k, c, y, other));
}
void patterns(mc::Ctx& ctx)
{
    static const std::vector<std::array<size_t, 3>> sh{ {1, 1, 1}, {2, 2, 2}, {1, 3, 1} };
    static const std::vector<std::array<size_t, 3>> sht{ {1, 1, 1}, {2, 2, 2}, {1, 2, 3}, {3, 2, 1}, {2, 3, 2} };
    auto s = ctx.pick(ctx.thorough() ? sht : sh);
    unsigned long x = ctx.choose(1 << (s[0] * s[1]), "pattern of A"), y = ctx.choose(1 << (s[1] * s[2]), "pattern of B");
    ctx.shard();
    all(ctx, pattern(s[0], s[1], x), pattern(s[1], s[2], y, other));
}
// beyond one register tile / cache block of the back ends
void large(mc::Ctx& ctx)
{
    static const std::vector<std::array<size_t, 3>> sh{ {7, 5, 9}, {16, 4, 1}, {1, 17, 8}, {8, 16, 17}, {33, 65, 17}, {64, 64, 64} };
    auto s = ctx.pick(sh);
    int x = ctx.choose(nb_structured, "pattern of A");
    ctx.shard();
    auto small = [](size_t i, size_t j) { return double(int((i * 7 + j * 3) % 9) - 4); };
    all(ctx, structured(s[0], s[1], x, small), structured(s[1], s[2], 0, small));
    all(ctx, structured(s[0], s[1], 0, small), structured(s[1], s[2], x, small));
}
mc::Register r1(std::string("shapes ") + what, shapes, true);
mc::Register r2(std::string("patterns ") + what, patterns, true);
mc::Register r3(std::string("large ") + what, large, true);
void wide(mc::Ctx& ctx)
{
    auto s = ctx.pick(big_triples(ctx.thorough()));
    ctx.shard();
    auto p = ctx.pick(big_patterns(ctx.thorough()));
    all(ctx, structured(s[0], s[1], p.first, wcode), structured(s[1], s[2], p.second, wother));
}
mc::Register r4(std::string("wide ") + what, wide, true);
