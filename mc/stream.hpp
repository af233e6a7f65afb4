// A stream buffer whose behaviour the explorer decides: how the data is divided into reads,
// and whether, where and when reading or seeking fails.  Decisions are made before the run,
// because istream swallows exceptions thrown inside a stream buffer.
#pragma once
#include <istream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>
struct PlanBuf : std::streambuf {
    std::string t;
    std::vector<size_t> cuts;           // offsets where a read ends
    size_t every = 0;                   // and after every so many octets
    bool seekable = true;
    int fail_pass = -1; size_t fail_at = 0; bool sticky = false; // reading at fail_at fails in the given pass (pass 0 = before the first seek)
    int fail_seek = -1;                 // the n-th absolute seek fails
    int pass = 0; bool hit = false; int hits = 0;
    off_type far = 0;                   // the stream position of the first octet
    PlanBuf(const std::string& s) : t(s) { setg(&t[0], &t[0], &t[0]); }
    bool failing() const { return fail_pass >= 0 && (pass == fail_pass || (sticky && pass > fail_pass)) && (sticky || hits == 0); }
    int_type underflow() override {
        size_t at = (size_t)(gptr() - eback());
        if (failing() && at >= fail_at) { hit = true; hits++; throw std::runtime_error("injected read error"); }
        if (at >= t.size()) return traits_type::eof();
        size_t e = t.size();
        for (size_t c : cuts) if (c > at && c < e) e = c;
        if (every && at + every < e) e = at + every;
        if (failing() && fail_at > at && fail_at < e) e = fail_at;
        setg(&t[0], &t[0] + at, &t[0] + e);
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        if (!seekable) return pos_type(off_type(-1));
        off_type b = d == std::ios_base::beg ? -far : d == std::ios_base::cur ? (off_type)(gptr() - eback()) : (off_type)t.size();
        o += b;
        if (o < 0 || o > (off_type)t.size()) return pos_type(off_type(-1));
        if (d == std::ios_base::cur && o == gptr() - eback()) return pos_type(far + o); // tell
        pass++;
        if (pass == fail_seek) { hit = true; hits++; return pos_type(off_type(-1)); }
        setg(&t[0], &t[0] + o, &t[0] + o);
        return pos_type(far + o);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
// A message too large to hold: a beginning, a piece repeated many times, and an end.
struct HugeBuf : std::streambuf {
    std::string head, tail, piece; size_t unit, times; off_type at = 0; // at = position of the first octet in the get area
    HugeBuf(const std::string& h, const std::string& u, size_t n, const std::string& t) : head(h), tail(t), unit(u.size()), times(n) { while (piece.size() < (1u << 20)) piece += u; }
    size_t middle() const { return unit * times; }
    size_t size() const { return head.size() + middle() + tail.size(); }
    int_type underflow() override {
        at += egptr() - eback(); setg(nullptr, nullptr, nullptr); size_t p = (size_t)at; char *b, *e;
        if (p < head.size()) { b = &head[p]; e = &head[0] + head.size(); }
        else if (p - head.size() < middle()) { size_t m = p - head.size(), o = m % unit; b = &piece[o]; e = b + std::min(piece.size() - o, middle() - m); }
        else if (p < size()) { b = &tail[p - head.size() - middle()]; e = &tail[0] + tail.size(); }
        else return traits_type::eof();
        setg(b, b, e); return traits_type::to_int_type(*b);
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        o += d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? at + (gptr() - eback()) : (off_type)size();
        if (o < 0 || o > (off_type)size()) return pos_type(off_type(-1));
        if (d == std::ios_base::cur && o == at + (gptr() - eback())) return pos_type(o);
        at = o; setg(nullptr, nullptr, nullptr); return pos_type(o);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
