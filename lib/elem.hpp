// Element types whose lifetimes are monitored
#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vf.hpp>

namespace lt {

struct Boom {};

struct Registry {
    std::unordered_map<const void*, int> live;
    std::string error;
    long countdown = -1; // When it reaches zero, throw
    std::uint64_t created = 0, destroyed = 0, thrown = 0;

    void note(std::string m) { if (error.empty()) error = std::move(m); }
    void birth(const void* p, int v)
    {
        ++created;
        auto r = live.emplace(p, v);
        if (!r.second)
            note("element constructed on top of live element");
    }
    void death(const void* p)
    {
        ++destroyed;
        if (live.erase(p) != 1)
            note("destruction of non-live element");
    }
    void touch(const void* p)
    {
        if (live.count(p) != 1)
            note("access to non-live element");
    }
    void maybe_throw()
    {
        if (countdown >= 0 && countdown-- == 0) {
            ++thrown;
            throw Boom{};
        }
    }
    void reset() { live.clear(); error.clear(); countdown = -1; created = destroyed = thrown = 0; }
};
inline Registry& reg() { static Registry r; return r; }

enum Kind { normal, copy_only, move_only, throwing_move };

template<Kind K> class Elem {
public:
    static constexpr bool copyable = (K != move_only);
    static constexpr bool nt_move = (K == normal || K == move_only);

    Elem() : Elem(0) {}
    Elem(int v)
    {
        reg().maybe_throw();
        m_v = std::make_unique<int>(v);
        reg().birth(this, v);
    }
    Elem(const Elem& o) requires (K != move_only) { copy(o); }
    Elem(Elem&& o) noexcept requires (K == normal || K == move_only)
    {
        reg().touch(&o);
        m_v = std::move(o.m_v);
        reg().birth(this, 0);
    }
    Elem(Elem&& o) requires (K == throwing_move)
    {
        copy(o);
    }
    Elem& operator=(const Elem& o) requires (K != move_only)
    {
        reg().touch(this);
        reg().touch(&o);
        reg().maybe_throw();
        m_v = std::make_unique<int>(o.get());
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept requires (K == move_only)
    {
        reg().touch(this);
        reg().touch(&o);
        m_v = std::move(o.m_v);
        return *this;
    }
    ~Elem() noexcept { reg().death(this); }
    int get() const
    {
        reg().touch(this);
        if (!m_v) {
            reg().note("read of moved-from element");
            return -1;
        }
        return *m_v;
    }
    friend bool operator==(const Elem& a, const Elem& b) { return a.get() == b.get(); }
    friend bool operator<(const Elem& a, const Elem& b) { return a.get() < b.get(); }

private:
    std::unique_ptr<int> m_v;
    void copy(const Elem& o)
    {
        reg().touch(&o);
        reg().maybe_throw();
        m_v = std::make_unique<int>(o.get());
        reg().birth(this, *m_v);
    }
};

template<class T> struct Traits; // make(int), get(const T&)
template<> struct Traits<int> {
    static constexpr bool copyable = true, nt_move = true, tracked = false;
    static int make(int v) { return v; }
    static int get(const int& v) { return v; }
};
template<> struct Traits<std::string> {
    static constexpr bool copyable = true, nt_move = true, tracked = false;
    static std::string make(int v)
    {
        if (v == 0)
            return {};
        return (v % 2 ? std::string("some rather long string value #") : std::string("s")) + std::to_string(v);
    }
    static int get(const std::string& s)
    {
        if (s.empty())
            return 0;
        auto i = s.find_first_of("0123456789");
        return i == std::string::npos ? -999 : std::stoi(s.substr(i));
    }
};
template<Kind K> struct Traits<Elem<K>> {
    static constexpr bool copyable = Elem<K>::copyable, nt_move = Elem<K>::nt_move, tracked = true;
    static Elem<K> make(int v) { return Elem<K>(v); }
    static int get(const Elem<K>& e) { return e.get(); }
};

} // namespace lt
