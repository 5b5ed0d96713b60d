// Reference MNIST / CIFAR file images built byte by byte.
#pragma once
#include "parser/mnist.hpp"
#include "parser/cifar.hpp"
#include "mc.hpp"
using Bytes = std::string;
using U8 = std::vector<std::uint8_t>;
inline Bytes be32(std::uint32_t v) { return Bytes{char(v >> 24), char(v >> 16), char(v >> 8), char(v)}; }
inline std::uint32_t rd32(const Bytes& b, std::size_t o)
{ std::uint32_t v = 0; for (int i = 0; i < 4; ++i) v = (v << 8) | std::uint8_t(b[o + std::size_t(i)]); return v; }
// position-distinguishing pixel: pattern 0 carries the low byte of the
// position, pattern 1 its high part and the record number
inline std::uint8_t pix(std::size_t rec, std::size_t p, int pat)
{ return std::uint8_t(pat == 0 ? p * 1 + rec * 101 + 1 : (p >> 8) * 16 + rec * 5 + 3); }
inline Bytes mnist_images(std::size_t n, int pat)
{
    Bytes b = be32(0x803) + be32(std::uint32_t(n)) + be32(28) + be32(28);
    for (std::size_t r = 0; r < n; ++r) for (std::size_t p = 0; p < 784; ++p) b += char(pix(r, p, pat));
    return b;
}
inline Bytes mnist_labels(std::size_t n, int pat)
{
    Bytes b = be32(0x801) + be32(std::uint32_t(n));
    for (std::size_t r = 0; r < n; ++r) b += char(pat == 0 ? (r * 3 + 1) % 10 : 9 - r % 10);
    return b;
}
inline Bytes cifar_file(std::size_t n, int pat, std::size_t lab)
{
    Bytes b;
    for (std::size_t r = 0; r < n; ++r)
    {
        for (std::size_t l = 0; l < lab; ++l) b += char(pat == 0 ? (r * 3 + l * 7 + 1) % 10 : 200 + r * 10 + l);
        for (std::size_t p = 0; p < 3072; ++p) b += char(pix(r, p, pat));
    }
    return b;
}
inline U8 slice(const Bytes& b, std::size_t o, std::size_t n) { return U8(b.begin() + long(o), b.begin() + long(o + n)); }
inline std::string brief(const U8& v) { std::ostringstream os; os << v.size() << " bytes:"; for (std::size_t i = 0; i < v.size() && i < 12; ++i) os << ' ' << int(v[i]); return os.str(); }
inline void same(mc::Ctx& c, const U8& got, const U8& want, const std::string& what)
{
    ++mc::stats().checks;
    if (got == want) return;
    std::size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    c.fail(what + ": differs at byte " + std::to_string(i) + " (got " + brief(got) + ", want " + brief(want) + ")");
}
// value or error
template <class F> auto attempt(F&& f) -> std::pair<bool, decltype(f())>
{
    using R = decltype(f());
    try { return {true, f()}; } catch (const mc::Violation&) { throw; } catch (const std::exception&) { return {false, R{}}; }
}
