#include "streamx.h"
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vf
{
namespace
{
long unpadded(const FsConfig& c, long n)
{
    if (c.full)
        return n;
    long over = c.iv + 16;
    return 16 + n / c.block * (c.block + over) + (n % c.block ? n % c.block + over : 0);
}
bool is_data(const FsConfig& c, const std::string& f)
{
    auto name = f.substr(f.rfind('/') == std::string::npos ? 0 : f.rfind('/') + 1);
    if (name[0] == '.')
        return false;
    return !c.full || name.size() < 5 || name.compare(name.size() - 5, 5, ".meta") != 0;
}
struct Stored
{
    long size;
    std::string path;
};
std::map<uint64_t, Stored> stored_files(const FsConfig& c, const std::string& dir)
{
    NoHook nh;
    std::map<uint64_t, Stored> r;
    for (auto& f : list_storage(dir))
    {
        struct stat st;
        if (is_data(c, f) && lstat((dir + "/" + f).c_str(), &st) == 0 && S_ISREG(st.st_mode))
            r[st.st_ino] = {(long)st.st_size, f};
    }
    return r;
}
}    // namespace

void SizeWatch::look(const char* when)
{
    auto files = stored_files(r.cfg, r.dir);
    for (auto it = node_of.begin(); it != node_of.end();)
        it = files.count(it->first) ? std::next(it) : node_of.erase(it);
    // Every operation adds at most one object.
    std::set<int> known;
    for (auto& [ino, id] : node_of)
        known.insert(id);
    for (auto& [ino, st] : files)
    {
        if (node_of.count(ino))
            continue;
        int id = 0;
        for (auto& [k, x] : r.model.n)
            if (!known.count(k) && (r.cfg.full || x.type == 'f') && (r.cfg.full || x.nlink > 0))
                id = k;
        if (!id)
            fail("%s: stored file %s belongs to nothing", when, st.path.c_str());
        node_of[ino] = id;
        known.insert(id);
    }
    for (auto& [ino, id] : node_of)
    {
        if (!r.model.n.count(id))
            continue;
        auto& x = r.model.n.at(id);
        long s = files[ino].size, p;
        if (x.type == 'd')
            p = s % 4096;
        else
            p = s - unpadded(r.cfg, x.type == 'f' ? x.data.size() : x.target.size());
        if (p < 0 || p > (long)r.cfg.padding)
            fail("%s: the stored size %ld of node %d exceeds its unpadded size by %ld, the maximum is %u", when, s, id, p, r.cfg.padding);
        auto it = pad.find(id);
        if (it == pad.end())
            pad[id] = p;
        else if (it->second != p)
            fail("%s: the padding of node %d is %ld, and was %ld", when, id, p, it->second);
    }
}

namespace
{
// ---- the distribution of paddings: "PAD|cfg|n" ----
std::vector<long> paddings(const FsConfig& c, const std::string& dir, int n)
{
    reset_dir(dir);
    reseed(7);
    std::vector<long> r;
    std::map<uint64_t, long> pads;
    auto measure = [&](const std::map<uint64_t, Stored>& before, long size)
    {
        auto after = stored_files(c, dir);
        for (auto& [ino, st] : after)
            if (!before.count(ino))
            {
                pads[ino] = st.size - unpadded(c, size);
                r.push_back(pads[ino]);
            }
    };
    {
        Mount m(dir, c);
        for (int i = 0; i < n; ++i)
        {
            auto before = stored_files(c, dir);
            uint64_t h = 0;
            std::string p = fmt("/f%d", i);
            if (m.create(p, 0644, &h))
                fail("create(%s) failed", p.c_str());
            long size = i % 3 == 0 ? 0 : i * 7;
            if (size && m.write(p, h, pattern(i, size), 0) != size)
                fail("write failed");
            m.flush(p, h);
            m.release(p, h);
            measure(before, size);
        }
    }
    if ((int)r.size() != n)
        fail("%d files are stored in %zu", n, r.size());
    for (auto v : r)
        if (v < 0 || v > (long)c.padding)
            fail("a stored size exceeds its unpadded size by %ld, the maximum is %u", v, c.padding);
    // Other mounts do not change them, and read the same.
    for (auto* extra : {"", ":noverify", ":ro", ":noxattr"})
    {
        FsConfig c2 = FsConfig::parse(c.str() + extra);
        Mount m(dir, c2);
        for (int i = 0; i < n; ++i)
        {
            long size = i % 3 == 0 ? 0 : i * 7;
            std::string p = fmt("/f%d", i), got;
            struct stat st;
            if (m.getattr(p, &st) || st.st_size != size)
                fail("a mount with \"%s\" shows size %ld for a file of %ld bytes", extra, (long)st.st_size, size);
            uint64_t h = 0;
            if (m.open(p, c2.ro ? O_RDONLY : O_RDWR, &h) || m.read(p, h, &got, 8192, 0) < 0 || got != pattern(i, size))
                fail("a mount with \"%s\" reads file %d wrongly", extra, i);
            m.flush(p, h);
            m.release(p, h);
        }
        int i = 0;
        for (auto& [ino, st] : stored_files(c, dir))
            if (pads.count(ino) && st.size - pads[ino] < 0)
                fail("stored file %s shrank", st.path.c_str()), ++i;
    }
    return r;
}
void run_pad(const FsConfig& c, int n)
{
    std::string dir = worker_dir() + "/fs";
    auto a = paddings(c, dir, n);
    std::set<long> values(a.begin(), a.end());
    // Far below what chance allows for values which are spread evenly.
    size_t want = std::min<size_t>(c.padding + 1, 8);
    if (c.padding > 0 && values.size() < want)
        fail("%d files have only %zu different paddings (maximum %u)", n, values.size(), c.padding);
    if (c.padding > 0 && (*values.rbegin() - (long)(c.padding * 9 / 10) < 0 || *values.begin() > (long)c.padding / 10))
        fail("the paddings of %d files lie between %ld and %ld (maximum %u)", n, *values.begin(), *values.rbegin(), c.padding);
    // With the same random numbers and another secret the sizes tell something else.
    FsConfig c2 = c;
    c2.key_variant = 1;
    auto b = paddings(c2, dir, n);
    if (c.padding > 0 && a == b)
        fail("the paddings do not depend on the secret");
    uint64_t h = 0;
    for (auto v : a)
        h = h * 31 + v;
    if (distinct(h))
        count(kNontrivial);
}

// ---- sparse files with far offsets: "FAR|cfg|ops" ----
struct Sparse
{
    long size = 0;
    std::map<long, std::string> pages;    // of 256 bytes
    void write(long off, const std::string& d)
    {
        for (size_t i = 0; i < d.size(); ++i)
        {
            auto& p = pages[(off + (long)i) / 256];
            p.resize(256, '\0');
            p[(off + i) % 256] = d[i];
        }
        size = std::max(size, off + (long)d.size());
    }
    void truncate(long n)
    {
        for (auto it = pages.lower_bound(n / 256); it != pages.end();)
        {
            if (it->first * 256 >= n)
                it = pages.erase(it);
            else
            {
                std::fill(it->second.begin() + n % 256, it->second.end(), '\0');
                ++it;
            }
        }
        size = n;
    }
    std::string read(long off, long n) const
    {
        if (off >= size)
            return "";
        std::string r(std::min(n, size - off), '\0');
        for (size_t i = 0; i < r.size(); ++i)
        {
            auto it = pages.find((off + (long)i) / 256);
            if (it != pages.end())
                r[i] = it->second[(off + i) % 256];
        }
        return r;
    }
};
// The largest size every block of which can be numbered.
long limit_of(const FsConfig& c) { return (c.full ? 1l << 30 : (1l << 31) - 1) * (long)c.block; }

void run_far(const FsConfig& c, const std::string& ops)
{
    reseed(7);
    std::string dir = worker_dir() + "/fs";
    reset_dir(dir);
    auto m = std::make_unique<Mount>(dir, c);
    uint64_t h = 0;
    if (m->create("/a", 0644, &h))
        fail("create failed");
    Sparse s;
    std::set<long> probes{0};
    auto probe = [&](long p) { probes.insert(p); };
    uint64_t dig = 0;
    auto check = [&](const char* when)
    {
        struct stat st;
        int rc = m->fgetattr("/a", h, &st);
        if (rc || st.st_size != s.size)
            fail("%s: fgetattr returns %d and size %ld, expected %ld", when, rc, (long)st.st_size, s.size);
        for (auto p : probes)
        {
            long from = std::max(0l, p - 150);
            if (from >= s.size)
                continue;
            long n = std::min(400l, s.size - from);
            std::string got, want = s.read(from, n);
            rc = m->read("/a", h, &got, n, from);
            if (rc < 0 || got != want)
                fail("%s: %ld bytes at %ld read as %d bytes %s, expected %s", when, n, from, rc, cescape(got.substr(0, 100)).c_str(), cescape(want.substr(0, 100)).c_str());
            dig = hash_str(got, dig);
        }
    };
    auto close = [&]
    {
        int rc = m->flush("/a", h), rc2 = m->release("/a", h);
        if (rc || rc2)
            fail("close returned %d, %d", rc, rc2);
    };
    auto open = [&]
    {
        if (int rc = m->open("/a", O_RDWR, &h))
            fail("open returned %d", rc);
    };
    s.write(0, pattern(9, 300));
    if (m->write("/a", h, pattern(9, 300), 0) != 300)
        fail("the first write failed");
    int k = 0;
    for (auto& op : split(ops, ';'))
    {
        ++k;
        auto w = split(op, ' ');
        auto when = fmt("operation %d \"%s\"", k, op.c_str());
        long lim = limit_of(c);
        if (w[0] == "w")
        {
            long off = atol(w[1].c_str()), len = atol(w[2].c_str());
            auto d = pattern(atoi(w[3].c_str()), len, off);
            int rc = m->write("/a", h, d, off);
            bool refuse = off > lim - len;
            if (refuse ? rc >= 0 : rc != len)
                fail("%s returned %d%s", when.c_str(), rc, refuse ? " beyond the largest size" : "");
            if (!refuse)
            {
                s.write(off, d);
                probe(off);
                probe(off + len);
            }
        }
        else if (w[0] == "t")
        {
            long n = atol(w[1].c_str());
            int rc = m->ftruncate("/a", h, n);
            bool refuse = n > lim;
            if (refuse ? rc >= 0 : rc != 0)
                fail("%s returned %d%s", when.c_str(), rc, refuse ? " beyond the largest size" : "");
            if (!refuse)
            {
                s.truncate(n);
                probe(n);
            }
        }
        else if (w[0] == "r")
        {
            close();
            m.reset();
            m = std::make_unique<Mount>(dir, c);
            open();
        }
        else
            throw HarnessError("unknown operation " + op);
        check(when.c_str());
    }
    close();
    m.reset();
    m = std::make_unique<Mount>(dir, c);
    open();
    check("after remounting");
    close();
    if (distinct(dig))
        count(kNontrivial);
}
std::vector<std::string> far_alphabet(long b)
{
    return {fmt("w %ld 10 1", b - 5), fmt("w %ld 3 2", b + 70), fmt("w %ld 90 3", b - 200), fmt("t %ld", b), fmt("t %ld", b - 1), fmt("t %ld", b + 65),
            "t 50", "w 0 10 4", "r"};
}
}    // namespace

bool is_stream_case(const std::string& head) { return head == "PAD" || head == "FAR"; }
void run_stream_case(const std::string& head, const std::string& rest)
{
    auto bar = rest.find('|');
    FsConfig c = FsConfig::parse(rest.substr(0, bar));
    if (head == "PAD")
        run_pad(c, atoi(rest.c_str() + bar + 1));
    else
        run_far(c, rest.substr(bar + 1));
}
void add_stream_shards(std::vector<Shard>& sh, std::string& note)
{
    bool th = g_args.thorough();
    if (g_args.prop == "C16")
    {
        note += "[paddings of 256 files each, for 17 maxima from 1 to 5000, both formats, over five kinds of mount and two secrets] ";
        for (auto* f : {"lite:b64:t128", "full:b64"})
            for (int p : {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 63, 64, 100, 255, 256, 1000, 5000})
                sh.push_back({"paddings",
                              [=]
                              {
                                  std::string c = fmt("PAD|%s:p%d|%d", f, p, th ? 1024 : 256);
                                  begin_case(c);
                                  auto a = c.find('|');
                                  run_stream_case(c.substr(0, a), c.substr(a + 1));
                                  count(kEval);
                                  sample(c);
                              }});
    }
    if (g_args.prop == "C01" || g_args.prop == "C02" || g_args.prop == "C16")
    {
        bool lite = g_args.prop == "C01", pad = g_args.prop == "C16";
        std::vector<std::string> cfgs = lite  ? std::vector<std::string>{"lite:t128", "lite:b64:i12:t128"}
                                        : pad ? std::vector<std::string>{"lite:p100:t128", "full:p100"}
                                              : std::vector<std::string>{"full:i12:time", "full:b65536:i16"};
        auto one = [](const std::string& cfg, const std::string& ops)
        {
            std::string c = "FAR|" + cfg + "|" + ops;
            begin_case(c);
            run_stream_case("FAR", cfg + "|" + ops);
            count(kEval);
            count(kTransitions, split(ops, ';').size());
            sample(c);
        };
        int depth = th ? 3 : 2;
        for (auto& cfg : cfgs)
        {
            FsConfig c = FsConfig::parse(cfg);
            std::set<long> bases;
            for (long x : {1l << 31, 1l << 32})
            {
                bases.insert(x);
                // where the stored position passes x
                bases.insert(c.full ? x - (long)c.padding : x / (c.block + c.iv + 16) * c.block);
            }
            if (!c.full)
            {
                bases.insert(limit_of(c) - 300);
                bases.insert(limit_of(c) - 60);
            }
            note += fmt("[%s, sparse files: offsets around %zu positions from 2 GiB on, 9 operations, depth %d] ", cfg.c_str(), bases.size(), depth);
            for (auto b : bases)
            {
                auto al = far_alphabet(b);
                for (size_t i = 0; i < al.size(); ++i)
                    sh.push_back({"far offsets",
                                  [=]
                                  {
                                      std::function<void(const std::string&, int)> rec = [&](const std::string& ops, int d)
                                      {
                                          one(cfg, ops);
                                          if (d < depth)
                                              for (auto& o : al)
                                                  rec(ops + ";" + o, d + 1);
                                      };
                                      rec(al[i], 1);
                                  }});
            }
            note += fmt("[%s, sizes beyond the largest] ", cfg.c_str());
            long l = limit_of(c);
            std::vector<std::string> beyond;
            for (long x : {l + c.block + 1, l + 100000, l * 2, l * 16, (1l << 62) + 5, std::numeric_limits<long>::max() - 100, std::numeric_limits<long>::max() - 40})
            {
                beyond.push_back(fmt("w %ld 10 1", x));
                beyond.push_back(fmt("t %ld", x));
            }
            for (auto& b : beyond)
                sh.push_back({"beyond", [=]
                              {
                                  for (auto* before : {"", "t 50;", "t 64;", "w 5000 70 2;"})
                                      for (auto* after : {"", ";t 4000", ";w 290 30 5", ";r"})
                                          one(cfg, before + b + after);
                              }});
        }
        if (!lite && !pad)
        {
            // The per-block metadata of these passes 2 and 4 GiB.
            note += "[full:b64:i32, metadata beyond 4 GiB, 6 histories] ";
            long b = (1l << 32) / 48 * 64;
            for (auto& ops : {fmt("w %ld 100 1;w 0 10 2", b - 40), fmt("t %ld;w 100 10 2", b + 100), fmt("w %ld 10 1;t %ld", b + 300, b + 64)})
                sh.push_back({"far metadata", [=] { one("full:b64:i32", ops); }});
        }
    }
}
}    // namespace vf
