// Result types used to instantiate the templates under test. Every type can be made from an int and
// read back; the counted ones also count live instances, so a leaked or doubly destroyed result shows.
#pragma once
#include <QString>
#include <memory>
#include <stdexcept>
#include <string>

namespace pl {

inline int live = 0;

struct Counted {
    int v = 0;
    Counted() { ++live; }
    explicit Counted(int x) : v(x) { ++live; }
    Counted(const Counted &o) : v(o.v) { ++live; }
    Counted(Counted &&o) noexcept : v(o.v) { o.v = -1; ++live; }
    Counted &operator=(const Counted &o) { v = o.v; return *this; }
    Counted &operator=(Counted &&o) noexcept { if (this != &o) { v = o.v; o.v = -1; } return *this; }
    ~Counted() { --live; v = -99; }
};
struct NoDefault {
    int v;
    explicit NoDefault(int x) : v(x) { ++live; }
    NoDefault(const NoDefault &o) : v(o.v) { ++live; }
    NoDefault(NoDefault &&o) noexcept : v(o.v) { o.v = -1; ++live; }
    NoDefault &operator=(const NoDefault &o) = default;
    NoDefault &operator=(NoDefault &&o) noexcept { v = o.v; o.v = -1; return *this; }
    ~NoDefault() { --live; v = -99; }
};
struct MoveOnly {
    std::unique_ptr<Counted> p;
    MoveOnly() = default;
    explicit MoveOnly(int x) : p(std::make_unique<Counted>(x)) {}
    MoveOnly(MoveOnly &&) = default;
    MoveOnly &operator=(MoveOnly &&) = default;
};
// constructible from Src only by conversion
struct Src { int v; };
struct Converted {
    int v = -2;
    Converted() { ++live; }
    Converted(const Src &s) : v(s.v) { ++live; }
    Converted(Src &&s) : v(s.v) { s.v = -1; ++live; }
    Converted(const Converted &o) : v(o.v) { ++live; }
    Converted(Converted &&o) noexcept : v(o.v) { o.v = -1; ++live; }
    Converted &operator=(const Converted &o) = default;
    Converted &operator=(Converted &&o) noexcept { v = o.v; o.v = -1; return *this; }
    ~Converted() { --live; }
};

template<typename T> struct Tr;
template<> struct Tr<int> { static constexpr bool counted = false; static int make(int v) { return v; } static int read(const int &v) { return v; } };
template<> struct Tr<QString> { static constexpr bool counted = false; static QString make(int v) { return QStringLiteral("a string long enough to be allocated %1").arg(v); }
    static int read(const QString &s) { return s.section(QLatin1Char(' '), -1).toInt(); } };
template<> struct Tr<std::string> { static constexpr bool counted = false; static std::string make(int v) { return "a string long enough to be allocated " + std::to_string(v); }
    static int read(const std::string &s) { return s.empty() ? -1 : std::stoi(s.substr(s.rfind(' ') + 1)); } };
template<> struct Tr<Counted> { static constexpr bool counted = true; static Counted make(int v) { return Counted(v); } static int read(const Counted &c) { return c.v; } };
template<> struct Tr<NoDefault> { static constexpr bool counted = true; static NoDefault make(int v) { return NoDefault(v); } static int read(const NoDefault &c) { return c.v; } };
template<> struct Tr<MoveOnly> { static constexpr bool counted = false; static MoveOnly make(int v) { return MoveOnly(v); } static int read(const MoveOnly &c) { return c.p ? c.p->v : 0; } };
template<> struct Tr<Converted> { static constexpr bool counted = true; static Converted make(int v) { return Converted(Src{v}); } static int read(const Converted &c) { return c.v; } };

struct Err : std::runtime_error {
    int id;
    explicit Err(int i) : std::runtime_error("err " + std::to_string(i)), id(i) {}
};
struct Odd { int id; }; // not derived from std::exception

//! id of the exception being handled
inline int currentId() {
    try { throw; }
    catch (const Err &e) { return e.id; }
    catch (const Odd &e) { return e.id; }
    catch (...) { return -7; }
}

} // namespace pl
