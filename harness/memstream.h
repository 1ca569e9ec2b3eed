// In-memory streams standing for stored files, with failure injection.
#pragma once
#include "core.h"
#include "exceptions.h"
#include "platform.h"
#include <cerrno>
#include <cstring>
#include <memory>

namespace vf
{
struct StreamFaults
{
    int64_t calls = 0, fail_at = -1;    // which call (0-based) throws
    bool write_only = false;
    int err = EIO;
    void hit(bool w)
    {
        if (write_only && !w)
            return;
        if (calls++ == fail_at)
            throw securefs::VFSException(err);
    }
};
class MemStream final : public securefs::FileStream
{
public:
    std::string buf;
    StreamFaults* faults = nullptr;

    securefs::length_type read(void* out, securefs::offset_type off, securefs::length_type len) override
    {
        hit(false);
        if (off >= buf.size())
            return 0;
        size_t n = std::min<size_t>(len, buf.size() - off);
        memcpy(out, buf.data() + off, n);
        return n;
    }
    void write(const void* in, securefs::offset_type off, securefs::length_type len) override
    {
        hit(true);
        if (!len)
            return;
        if (off + len > buf.size())
            buf.resize(off + len);
        memcpy(&buf[off], in, len);
    }
    securefs::length_type size() const override { return buf.size(); }
    void flush() override { hit(true); }
    void resize(securefs::length_type n) override
    {
        hit(true);
        buf.resize(n);
    }
    void fsync() override { hit(true); }
    void utimens(const struct timespec[2]) override {}
    void fstat(struct stat* st) const override
    {
        memset(st, 0, sizeof(*st));
        st->st_size = buf.size();
    }
    void close() noexcept override {}
    void lock(bool) override {}
    void unlock() noexcept override {}
    securefs::length_type sequential_read(void*, securefs::length_type) override { throw HarnessError("sequential read"); }
    void sequential_write(const void*, securefs::length_type) override { throw HarnessError("sequential write"); }

private:
    void hit(bool w)
    {
        if (faults)
            faults->hit(w);
    }
};
}    // namespace vf
