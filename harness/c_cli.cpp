// Configurations and commands: C17 (secrets), C18 (replacing a configuration), C29 (suffix migration).
#include "cli.h"
#include "judge.h"
#include "memstream.h"
#include "myutils.h"
#include "params_io.h"
#include "commands.h"
#include <algorithm>
#include <argon2.h>
#include <cryptopp/aes.h>
#include <cryptopp/gcm.h>
#include <cryptopp/hmac.h>
#include <cryptopp/pwdbased.h>
#include <cryptopp/scrypt.h>
#include <cryptopp/sha.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <google/protobuf/util/json_util.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace vf;
using securefs::DecryptedSecurefsParams;
using securefs::EncryptedSecurefsParams;
using securefs::LegacySecurefsJsonParams;
namespace
{
using V = std::vector<std::string>;

std::string repo()
{
    const char* e = getenv("VERIF_REPO");
    return e && *e ? e : "/repo";
}
std::string refdir() { return repo() + "/test/reference"; }

// ---------------------------------------------------------------- secrets and configurations
struct Secret
{
    std::string pw;
    bool has_key = false;
    std::string key;
    bool operator==(const Secret& o) const { return pw == o.pw && has_key == o.has_key && (!has_key || key == o.key); }
    std::string str() const { return cescape(pw.substr(0, 20)) + (has_key ? fmt("+key(%zu)", key.size()) : ""); }
};
// The parameters, or the error.
bool try_open(const std::string& conf, const Secret& s, DecryptedSecurefsParams* out, std::string* why = nullptr)
{
    MemStream ks;
    ks.buf = s.key;
    try
    {
        *out = securefs::decrypt(conf, {(const unsigned char*)s.pw.data(), s.pw.size()}, s.has_key ? &ks : nullptr);
        return true;
    }
    catch (const std::exception& e)
    {
        if (why)
            *why = e.what();
        return false;
    }
}
using Bytes = std::string;
Bytes hmac(const Bytes& key, const Bytes& data)
{
    CryptoPP::HMAC<CryptoPP::SHA256> h((const CryptoPP::byte*)key.data(), key.size());
    h.Update((const CryptoPP::byte*)data.data(), data.size());
    Bytes r(32, 0);
    h.Final((CryptoPP::byte*)&r[0]);
    return r;
}
std::string hexs(const Bytes& b) { return hex(b.data(), b.size()); }
Bytes unhex(const std::string& h)
{
    Bytes r;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
Bytes some_bytes(int tag, size_t n)
{
    Bytes r;
    uint64_t x = 77 + tag * 7919;
    while (r.size() < n)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        r += (char)(x >> 56);
    }
    return r;
}

// A configuration in the older format, written independently of the code under check.
struct LegacyCase
{
    int version = 4, kdf = 0 /* argon2id, scrypt, pkcs5, unnamed */, way = 1;
    int iv_len = 12, mk = 96;
    int block = 0, iv_size = 0, pad = 0;
    bool long_names = false;
    std::string str() const { return fmt("%d,%d,%d,%d,%d,%d,%d,%d,%d", version, kdf, way, iv_len, mk, block, iv_size, pad, (int)long_names); }
    static LegacyCase parse(const std::string& s)
    {
        auto v = split(s, ',');
        LegacyCase c;
        int* f[] = {&c.version, &c.kdf, &c.way, &c.iv_len, &c.mk, &c.block, &c.iv_size, &c.pad};
        for (int i = 0; i < 8; ++i)
            *f[i] = atoi(v.at(i).c_str());
        c.long_names = atoi(v.at(8).c_str());
        return c;
    }
};
Bytes legacy_kdf(int kdf, const Bytes& pw, const Bytes& salt)
{
    Bytes r(32, 0);
    auto* o = (CryptoPP::byte*)&r[0];
    auto *p = (const CryptoPP::byte*)pw.data(), *s = (const CryptoPP::byte*)salt.data();
    if (kdf == 0)
    {
        if (argon2id_hash_raw(2, 16, 2, p, pw.size(), s, salt.size(), o, 32))
            throw HarnessError("argon2");
    }
    else if (kdf == 1)
    {
        CryptoPP::Scrypt k;
        k.DeriveKey(o, 32, p, pw.size(), s, salt.size(), 4, 2, 3);
    }
    else
    {
        CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::SHA256> k;
        k.DeriveKey(o, 32, 0, p, pw.size(), s, salt.size(), 3);
    }
    return r;
}
std::string legacy_config(const LegacyCase& c, const Secret& s, DecryptedSecurefsParams* want)
{
    Bytes salt = some_bytes(c.version * 16 + c.kdf, 32), iv = some_bytes(5, c.iv_len), mk = some_bytes(9 + c.version, c.mk);
    Bytes key;
    if (!s.has_key)
        key = legacy_kdf(c.kdf, s.pw, salt);
    else if (c.way == 1)
        key = legacy_kdf(c.kdf, s.pw, hmac(salt, s.key));
    else
        key = hmac(legacy_kdf(c.kdf, s.pw, salt), s.key);
    Bytes ct(mk.size(), 0), mac(16, 0);
    CryptoPP::GCM<CryptoPP::AES>::Encryption e;
    e.SetKeyWithIV((const CryptoPP::byte*)key.data(), 32, (const CryptoPP::byte*)iv.data(), iv.size());
    std::string head = c.version == 4 ? "version=4" : "version=1";
    e.EncryptAndAuthenticate((CryptoPP::byte*)&ct[0], (CryptoPP::byte*)&mac[0], 16, (const CryptoPP::byte*)iv.data(), iv.size(), (const CryptoPP::byte*)head.data(), head.size(),
                             (const CryptoPP::byte*)mk.data(), mk.size());
    std::string j = "{\n";
    if (c.block)
        j += fmt("\t\"block_size\" : %d,\n", c.block);
    j += "\t\"encrypted_key\" : \n\t{\n\t\t\"IV\" : \"" + hexs(iv) + "\",\n\t\t\"MAC\" : \"" + hexs(mac) + "\",\n\t\t\"key\" : \"" + hexs(ct) + "\"\n\t},\n";
    j += fmt("\t\"iterations\" : %d,\n", c.kdf == 0 ? 2 : c.kdf == 1 ? 4 : 3);
    if (c.iv_size)
        j += fmt("\t\"iv_size\" : %d,\n", c.iv_size);
    if (c.pad)
        j += fmt("\t\"max_padding\" : %d,\n", c.pad);
    if (c.long_names)
        j += "\t\"long_name_component\" : true,\n";
    if (c.kdf == 0)
        j += "\t\"argon2_m_cost\" : 16,\n\t\"argon2_p\" : 2,\n\t\"pbkdf\" : \"argon2id\",\n";
    if (c.kdf == 1)
        j += "\t\"scrypt_r\" : 2,\n\t\"scrypt_p\" : 3,\n\t\"pbkdf\" : \"scrypt\",\n";
    if (c.kdf == 2)
        j += "\t\"pbkdf\" : \"pkcs5-pbkdf2-hmac-sha256\",\n";
    j += "\t\"salt\" : \"" + hexs(salt) + fmt("\",\n\t\"version\" : %d\n}\n", c.version);
    want->Clear();
    want->mutable_size_params()->set_block_size(c.block ? c.block : 4096);
    want->mutable_size_params()->set_iv_size(c.iv_size ? c.iv_size : 32);
    want->mutable_size_params()->set_max_padding_size(c.pad);
    if (c.version == 4)
    {
        auto* l = want->mutable_lite_format_params();
        l->set_name_key(mk.substr(0, 32));
        l->set_content_key(mk.substr(32, 32));
        l->set_xattr_key(mk.substr(64, 32));
        if (mk.size() == 128)
            l->set_padding_key(mk.substr(96, 32));
        if (c.long_names)
            l->set_long_name_threshold(128);
    }
    else
    {
        auto* f = want->mutable_full_format_params();
        f->set_master_key(mk);
        f->set_legacy_file_table_io(c.version == 1);
        f->set_store_time(c.version == 3);
    }
    return j;
}
std::vector<LegacyCase> legacy_cases()
{
    std::vector<LegacyCase> r;
    for (int v = 1; v <= 4; ++v)
        for (int k = 0; k < 4; ++k)
            for (int way = 1; way <= 2; ++way)
                for (int iv : {12, 32})
                    for (int shape = 0; shape < 3; ++shape)
                        for (int mk : v == 4 ? std::vector<int>{96, 128} : std::vector<int>{32})
                        {
                            LegacyCase c;
                            c.version = v;
                            c.kdf = k;
                            c.way = way;
                            c.iv_len = iv;
                            c.mk = mk;
                            if (shape == 1)
                                c.block = 512, c.iv_size = 12, c.pad = 24;
                            if (shape == 2)
                                c.iv_size = 16, c.long_names = true;
                            r.push_back(c);
                        }
    return r;
}
std::vector<Secret> secrets()
{
    std::vector<Secret> r;
    Bytes key(16, 'k'), key2 = key;
    key2[15] ^= 1;
    for (auto& pw : {std::string("abc"), std::string("abd"), std::string(" "), std::string(""), std::string("abc "), std::string("ABC"), std::string("abc\0", 4), std::string("\xe5\x8a\xa0 \xff"), std::string(4000, 'p'), std::string(3999, 'p')})
        r.push_back({pw});
    for (auto& k : {key, key2, Bytes(), Bytes(1, 0), Bytes(4096, 'q'), Bytes(4097, 'q'), Bytes(4095, 'q'), Bytes(10000, 'q'), Bytes(4096, 'q') + "r"})
        for (auto& pw : {"abc", " "})
            r.push_back({pw, true, k});
    return r;
}
bool same(const DecryptedSecurefsParams& a, const DecryptedSecurefsParams& b) { return a.SerializeAsString() == b.SerializeAsString(); }

std::vector<DecryptedSecurefsParams> param_sets()
{
    std::vector<DecryptedSecurefsParams> r;
    for (auto c : {"lite:b4096:i12:t128:s.ll", "lite:b512:i32:p24", "full:b4096:i12", "full:b512:i16:p9:time:v1:ci:uni"})
        r.push_back(FsConfig::parse(c).params());
    r[1].mutable_lite_format_params()->clear_padding_key();
    return r;
}
std::string write_config(int pi, const Secret& s, int t, int m, int p, uint64_t seed)
{
    EncryptedSecurefsParams::Argon2idParams a;
    a.set_time_cost(t);
    a.set_memory_cost(m);
    a.set_parallelism(p);
    MemStream ks;
    ks.buf = s.key;
    reseed(seed);
    return securefs::encrypt(param_sets().at(pi), a, {(const unsigned char*)s.pw.data(), s.pw.size()}, s.has_key ? &ks : nullptr).SerializeAsString();
}

// W|param set|secret|t,m,p : opened by exactly its own secret
void case_written(const std::string& body)
{
    auto f = split(body, '|');
    int pi = atoi(f.at(0).c_str()), si = atoi(f.at(1).c_str());
    auto cost = parse_ints(f.at(2));
    auto all = secrets();
    auto conf = write_config(pi, all.at(si), cost[0], cost[1], cost[2], 5);
    // Independent reader of the container: the costs must be those asked for, the salt fresh and full.
    EncryptedSecurefsParams e;
    if (!e.ParseFromString(conf) || e.salt().size() != 32 || e.iv().size() != 12 || e.mac().size() != 16 || e.argon2id_params().time_cost() != (unsigned)cost[0]
        || e.argon2id_params().memory_cost() != (unsigned)cost[1] || e.argon2id_params().parallelism() != (unsigned)cost[2])
        fail("the written configuration does not hold the requested derivation costs or full-size salt, nonce and code");
    for (size_t r = 0; r < all.size(); ++r)
    {
        DecryptedSecurefsParams p;
        std::string why;
        bool ok = try_open(conf, all[r], &p, &why);
        count(kTransitions);
        if ((all[r] == all[si]) != ok)
            fail("a configuration written for %s is %s with %s %s", all[si].str().c_str(), ok ? "opened" : "refused", all[r].str().c_str(), why.c_str());
        if (ok && !same(p, param_sets().at(pi)))
            fail("the parameters read back differ from the ones stored");
    }
}
// L|case|secret : legacy configurations
void case_legacy(const std::string& body)
{
    auto f = split(body, '|');
    auto c = LegacyCase::parse(f.at(0));
    auto all = secrets();
    auto& s = all.at(atoi(f.at(1).c_str()));
    DecryptedSecurefsParams want, p;
    auto conf = legacy_config(c, s, &want);
    for (size_t r = 0; r < all.size(); ++r)
    {
        std::string why;
        bool ok = try_open(conf, all[r], &p, &why);
        count(kTransitions);
        // PBKDF2 (also within scrypt) keys HMAC with the password, for which trailing zero bytes are padding.
        auto canon = [&](Secret x)
        {
            while (c.kdf != 0 && x.pw.size() <= 64 && !x.pw.empty() && x.pw.back() == 0)
                x.pw.pop_back();
            return x;
        };
        bool should = canon(all[r]) == canon(s);
        if (should != ok)
            fail("a legacy configuration written for %s is %s with %s: %s", s.str().c_str(), ok ? "opened" : "refused", all[r].str().c_str(), why.c_str());
        if (ok && !same(p, want))
            fail("the legacy configuration is given the wrong meaning: %s instead of %s", p.ShortDebugString().c_str(), want.ShortDebugString().c_str());
    }
}
// A|source|kind:pos:arg : alterations. Sources: w<param>,<secret>  l<legacy index>,<secret>  r<file>
bool keys_equal(const DecryptedSecurefsParams& a, const DecryptedSecurefsParams& b)
{
    auto k = [](const DecryptedSecurefsParams& p)
    {
        auto& l = p.lite_format_params();
        return l.name_key() + l.content_key() + l.xattr_key() + l.padding_key() + "|" + p.full_format_params().master_key();
    };
    return k(a) == k(b) && a.has_lite_format_params() == b.has_lite_format_params();
}
struct Source
{
    std::string conf;
    Secret secret;
    bool json = false;
    DecryptedSecurefsParams params;
};
Secret ref_secret(const std::string& name)
{
    Secret s;
    s.pw = name.find("PASSWORD") != std::string::npos ? "abc" : " ";
    if (name.find("KEYFILE") != std::string::npos)
    {
        s.has_key = true;
        s.key = read_file(refdir() + "/keyfile");
    }
    return s;
}
Source source(const std::string& id)
{
    static std::map<std::string, Source> cache;
    auto it = cache.find(id);
    if (it != cache.end())
        return it->second;
    Source s;
    if (id[0] == 'w')
    {
        auto v = parse_ints(id.substr(1));
        s.secret = secrets().at(v[1]);
        s.conf = write_config(v[0], s.secret, 1, 8, 1, 5);
    }
    else if (id[0] == 'l')
    {
        auto v = parse_ints(id.substr(1));
        s.secret = secrets().at(v[1]);
        DecryptedSecurefsParams w;
        s.conf = legacy_config(legacy_cases().at(v[0]), s.secret, &w);
        s.json = true;
    }
    else
    {
        s.conf = read_file(refdir() + "/" + id.substr(1));
        s.secret = ref_secret(id);
        s.json = id.find(".json") != std::string::npos;
    }
    std::string why;
    if (!try_open(s.conf, s.secret, &s.params, &why))
        fail("configuration %s is refused with its own secret: %s", id.c_str(), why.c_str());
    return cache[id] = s;
}
std::string alter(const std::string& conf, const std::string& how)
{
    auto f = split(how, ':');
    size_t pos = atol(f.at(1).c_str());
    int arg = atoi(f.at(2).c_str());
    std::string c = conf;
    switch (how[0])
    {
    case 'x': c.at(pos) ^= arg; break;           // exclusive or
    case 'c': c.resize(pos); break;              // cut
    case 'd': c.erase(pos, arg); break;          // delete
    case 'i': c.insert(pos, 1, (char)arg); break; // insert
    case 'a': c += std::string(pos, (char)arg); break;
    case 'z': c.replace(pos, std::min<size_t>(arg, c.size() - pos), std::string(std::min<size_t>(arg, c.size() - pos), 0)); break;
    }
    return c;
}
// What the altered JSON means, ignoring spelling; the parts the older format authenticates, and what
// its unauthenticated settings then say.
bool json_core(const std::string& s, std::string* core, LegacySecurefsJsonParams* m)
{
    if (!google::protobuf::util::JsonStringToMessage(s, m).ok())
        return false;
    std::string kdf = m->pbkdf().empty() ? "pkcs5-pbkdf2-hmac-sha256" : m->pbkdf();
    *core = (m->version() == 4 ? "4|" : "1|") + kdf + "|" + hexs(unhex(m->salt())) + "|" + hexs(unhex(m->encrypted_key().iv())) + "|" + hexs(unhex(m->encrypted_key().mac())) + "|"
        + hexs(unhex(m->encrypted_key().ciphertext())) + fmt("|%u", m->iterations());
    if (kdf == "scrypt")
        *core += fmt("|%u|%u", m->scrypt_r(), m->scrypt_p());
    if (kdf == "argon2id")
        *core += fmt("|%u|%u", m->argon2_m_cost(), m->argon2_p());
    return true;
}
void case_altered(const std::string& id, const std::string& how)
{
    Source s = source(id);
    std::string c = alter(s.conf, how);
    if (c == s.conf)
        return;
    DecryptedSecurefsParams p;
    bool ok = try_open(c, s.secret, &p);
    count(kTransitions);
    if (!ok)
        return;
    count(kExtra1);
    if (!s.json)
    {
        // Only another spelling of the same message may be accepted.
        EncryptedSecurefsParams a, b;
        a.ParseFromString(s.conf);
        if (!b.ParseFromString(c))
            fail("an unreadable configuration is accepted");
        b.DiscardUnknownFields();
        b.mutable_argon2id_params()->DiscardUnknownFields();
        if (a.SerializeAsString() != b.SerializeAsString())
            fail("an altered configuration is accepted");
        if (!same(p, s.params))
            fail("an altered configuration yields other parameters");
        return;
    }
    std::string ca, cb;
    LegacySecurefsJsonParams ma, mb;
    if (!json_core(s.conf, &ca, &ma) || !json_core(c, &cb, &mb))
        fail("an unreadable configuration is accepted");
    if (ca != cb)
        fail("an altered legacy configuration is accepted");
    if (!keys_equal(p, s.params))
        fail("an altered legacy configuration yields other keys");
    bool lite = mb.version() == 4;
    if (p.size_params().block_size() != (mb.has_block_size() ? mb.block_size() : 4096) || p.size_params().iv_size() != (mb.has_iv_size() ? mb.iv_size() : 32)
        || p.size_params().max_padding_size() != mb.max_padding() || (lite && (p.lite_format_params().long_name_threshold() > 0) != mb.long_name_component())
        || (!lite && (p.full_format_params().legacy_file_table_io() != (mb.version() == 1) || p.full_format_params().store_time() != (mb.version() == 3))))
        fail("an altered legacy configuration yields settings other than the ones in it");
}
V sources(bool thorough)
{
    V r;
    for (int p = 0; p < 4; ++p)
        for (int s : {0, 10, 11})
            r.push_back(fmt("w%d,%d", p, s));
    auto lc = legacy_cases();
    for (size_t i = 0; i < lc.size(); ++i)
        if (thorough ? lc[i].iv_len == 12 : (lc[i].iv_len == 12 && lc[i].block && (lc[i].version == 4 || lc[i].version == 2) && lc[i].mk != 96))
            for (int s : {0, 11})
                if (s != 0 || lc[i].way == 1)
                    r.push_back(fmt("l%zu,%d", i, s));
    if (thorough)
        for (auto d : {"4", "4-padded", "1", "3-padded", "new-lite", "new-full-padded"})
            for (auto& n : {".config.PASSWORD.pb", ".config.KEYFILE.pb", ".securefs.scrypt.KEYFILE2.json", ".securefs.argon2id.PASSWORD_WITH_KEYFILE.json", ".securefs.pkcs5-pbkdf2-hmac-sha256.PASSWORD.json"})
                if (file_exists(refdir() + "/" + d + "/" + n))
                    r.push_back(std::string("r") + d + "/" + n);
    return r;
}
void enum_alterations(const std::string& id)
{
    size_t n = source(id).conf.size();
    auto one = [&](const std::string& how)
    {
        std::string c = "A|" + id + "|" + how;
        begin_case(c);
        guarded(c, [&] { case_altered(id, how); });
        count(kEval);
        if (distinct(hash_str(c)))
            count(kNontrivial);
    };
    for (size_t i = 0; i < n; ++i)
    {
        if (g_args.thorough())
            for (int x = 1; x < 256; ++x)
                one(fmt("x:%zu:%d", i, x));
        else
            for (int b = 0; b < 8; ++b)
                one(fmt("x:%zu:%d", i, 1 << b));
        one(fmt("c:%zu:0", i));
        for (int d : {1, 2, 4, 8, 16, 32})
            if (i + d <= n)
            {
                one(fmt("d:%zu:%d", i, d));
                one(fmt("z:%zu:%d", i, d));
            }
        for (int ch : {0, 1, 0x30, 0x20, 255})
            one(fmt("i:%zu:%d", i, ch));
    }
    for (int k : {1, 2, 3, 8, 100})
        for (int ch : {0, 1, 0x30, 0x7d, 0x22, 0x1a})
            one(fmt("a:%d:%d", k, ch));
}

// ---------------------------------------------------------------- commands
struct Mode
{
    V args;
    std::string input;
    Secret effective;
    std::string name;
};
std::string keypath(int i) { return worker_dir() + fmt("/key%d", i); }
Bytes keydata(int i) { return i == 1 ? Bytes("keyfile-content!") : Bytes("keyfile-content?"); }
std::vector<Mode> modes()
{
    for (int i : {1, 2})
        write_file(keypath(i), keydata(i));
    return {
        {{"--pass", "abc"}, "", {"abc"}, "pass"},
        {{}, "abc\n", {"abc"}, "stdin"},
        {{}, "abc", {"abc"}, "stdin without newline"},
        {{"--pass", "xyz"}, "", {"xyz"}, "pass2"},
        {{"--keyfile", keypath(1)}, "", {" ", true, keydata(1)}, "key"},
        {{"--keyfile", keypath(2)}, "", {" ", true, keydata(2)}, "key2"},
        {{"--keyfile", keypath(1), "--pass", "abc"}, "", {"abc", true, keydata(1)}, "key+pass"},
        {{"--keyfile", keypath(1), "--askpass"}, "abc\n", {"abc", true, keydata(1)}, "key+stdin"},
        {{"--keyfile", keypath(2), "--pass", "abc"}, "", {"abc", true, keydata(2)}, "key2+pass"},
        {{"--keyfile", keypath(1), "--pass", " "}, "", {" ", true, keydata(1)}, "key+space"},
        {{"--pass", " "}, "", {" "}, "space"},
    };
}
V old_args(const Mode& m)    // for chpass
{
    V r;
    for (size_t i = 0; i < m.args.size(); ++i)
        r.push_back(m.args[i] == "--pass" ? "--oldpass" : m.args[i] == "--keyfile" ? "--oldkeyfile" : m.args[i] == "--askpass" ? "--askoldpass" : m.args[i]);
    return r;
}
V new_args(const Mode& m)
{
    V r;
    for (size_t i = 0; i < m.args.size(); ++i)
        r.push_back(m.args[i] == "--pass" ? "--newpass" : m.args[i] == "--keyfile" ? "--newkeyfile" : m.args[i] == "--askpass" ? "--asknewpass" : m.args[i]);
    return r;
}
CliResult run(const V& args, const std::string& input = "", uint64_t seed = 3)
{
    CliOptions o;
    o.input = input;
    o.seed = seed;
    return cli(args, o);
}
void expect_ok(const CliResult& r, const char* what)
{
    if (!r.ok())
        fail("%s fails with code %d: %s", what, r.code, r.err.substr(0, 300).c_str());
}
void expect_refused(const CliResult& r, const char* what)
{
    if (r.ok())
        fail("%s succeeds", what);
    if (r.err.empty())
        fail("%s fails without any message", what);
}
std::string clean_dir(const char* name)
{
    std::string d = worker_dir() + "/" + name;
    rm_rf(d);
    return d;
}
// Y|hex of what is typed : the password is the line without its end, every byte of it
void case_typed(const std::string& body)
{
    std::string pw;
    for (size_t i = 0; i + 1 < body.size(); i += 2)
        pw += char(strtol(body.substr(i, 2).c_str(), nullptr, 16));
    std::string d = clean_dir("typed");
    auto r = run(V{"create", d} + kCheap, pw + "\nrest\n");
    if (pw.size() > 4000)
        return expect_refused(r, "create with a password of more than 4000 bytes");
    expect_ok(r, "create");
    DecryptedSecurefsParams p;
    std::string conf = read_file(d + "/.config.pb");
    if (!try_open(conf, {pw}, &p))
        fail("the password typed as %s does not open the configuration", cescape(pw.substr(0, 20)).c_str());
    for (size_t i = 0; i < pw.size(); i += std::max<size_t>(1, pw.size() / 3))
    {
        auto q = pw;
        q.erase(i, 1);
        if (q != pw && try_open(conf, {q}, &p))
            fail("a password with a byte less opens the configuration");
    }
    for (auto& q : {pw + "\n", pw + "r", pw + std::string(1, 0)})
        if (try_open(conf, {q}, &p))
            fail("a password with a byte more opens the configuration");
    expect_ok(run(V{"info", d}, pw + "\n"), "info");
    count(kTransitions, 2);
}
// C|format|create mode|chpass mode or -1
void case_commands(const std::string& body)
{
    auto f = split(body, '|');
    auto ms = modes();
    auto& a = ms.at(atoi(f.at(1).c_str()));
    int bi = atoi(f.at(2).c_str());
    std::string d = clean_dir("cmd");
    expect_ok(run(V{"create", "-f", f.at(0), d} + a.args + kCheap, a.input), "create");
    std::string conf = d + "/.config.pb";
    std::string c0 = read_file(conf);
    DecryptedSecurefsParams p0, p;
    if (!try_open(c0, a.effective, &p0))
        fail("the created configuration does not open with the given secret");
    const Mode* cur = &a;
    if (bi >= 0)
    {
        auto& b = ms.at(bi);
        // Standard input: the old password line, then the new one.
        std::string in = a.input.empty() || a.input.back() == '\n' ? a.input + b.input : a.input + "\n" + b.input;
        expect_ok(run(V{"chpass", d} + old_args(a) + new_args(b) + kCheap, in), "chpass");
        cur = &b;
        if (!try_open(read_file(conf), b.effective, &p))
            fail("chpass reports success but the new secret does not open the configuration");
        if (!same(p, p0))
            fail("chpass changed the parameters");
        if (!(a.effective == b.effective) && try_open(read_file(conf), a.effective, &p))
            fail("after chpass the old secret still opens the configuration");
        // A refused change changes nothing.
        c0 = read_file(conf);
        if (!(a.effective == b.effective))
            expect_refused(run(V{"chpass", d} + old_args(a) + new_args(b) + kCheap, in), "chpass with the old secret again");
        if (read_file(conf) != c0)
            fail("a refused chpass changed the configuration");
    }
    for (auto& r : ms)
    {
        bool should = r.effective == cur->effective;
        auto res = run(V{"info", d} + r.args, r.input);
        count(kTransitions);
        if (res.ok() != should)
            fail("info with %s on a configuration for %s: code %d", r.name.c_str(), cur->name.c_str(), res.code);
        if (!should)
            expect_refused(res, "info with a wrong secret");
        CliOptions o;
        o.input = r.input;
        o.cfg.full = f.at(0) == "full";
        bool used = false;
        res = cli(V{"mount", d, worker_dir() + "/mnt"} + r.args, o);
        if (res.mounted != should)
            fail("mount with %s on a configuration for %s %s", r.name.c_str(), cur->name.c_str(), res.mounted ? "succeeds" : "fails");
        if (!should)
            expect_refused(res, "mount with a wrong secret");
        (void)used;
    }
    if (read_file(conf) != c0)
        fail("reading the configuration changed it");
}
// R|dir|config : a reference repository shows what it always held
std::map<std::string, std::string> plain_tree(const std::string& dir, const std::string& rel = "")
{
    std::map<std::string, std::string> r;
    DIR* d = opendir((dir + "/" + rel).c_str());
    if (!d)
        throw HarnessError("opendir " + dir);
    while (auto* e = readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        std::string p = rel + "/" + n;
        struct stat st;
        lstat((dir + p).c_str(), &st);
        if (S_ISDIR(st.st_mode))
        {
            r[p] = "dir";
            for (auto& x : plain_tree(dir, p))
                r.insert(x);
        }
        else
            r[p] = fmt("file %zu %016llx", (size_t)st.st_size, (unsigned long long)hash_str(read_file(dir + p)));
    }
    closedir(d);
    return r;
}
std::map<std::string, std::string> mounted_tree(Mount& m, const std::string& rel = "")
{
    std::map<std::string, std::string> r;
    std::vector<DirEnt> es;
    if (int rc = m.readdir(rel.empty() ? "/" : rel, &es))
        fail("listing %s of a reference repository returns %d", rel.c_str(), rc);
    for (auto& e : es)
    {
        if (e.name == "." || e.name == "..")
            continue;
        std::string p = rel + "/" + e.name;
        struct stat st;
        if (int rc = m.getattr(p, &st))
            fail("getattr of %s in a reference repository returns %d", p.c_str(), rc);
        if (S_ISDIR(st.st_mode))
        {
            r[p] = "dir";
            for (auto& x : mounted_tree(m, p))
                r.insert(x);
        }
        else
        {
            int err;
            std::string c = read_all(m, p, &err);
            if (err)
                fail("reading %s of a reference repository returns %d", p.c_str(), err);
            r[p] = fmt("file %zu %016llx", (size_t)st.st_size, (unsigned long long)hash_str(c));
        }
    }
    return r;
}
void case_reference(const std::string& body)
{
    auto f = split(body, '|');
    std::string d = clean_dir("ref"), dir = f.at(0), conf = f.at(1);
    copy_tree(refdir() + "/" + dir, d);
    auto want = plain_tree(refdir() + (dir.compare(0, 3, "new") == 0 ? "/new-plain" : "/plain"));
    Secret s = ref_secret(conf);
    std::string cpath = conf[0] == '.' ? d + "/" + conf : refdir() + "/" + conf;
    V sec;
    if (s.pw == "abc")
        sec = {"--pass", "abc"};
    if (s.has_key)
        sec = sec + V{"--keyfile", refdir() + "/keyfile"};
    CliOptions o;
    V extra;
    if (dir == "4-plain-text-names")
        extra = {"--plain-text-names"};
    int seen = 0;
    for (int twice = 0; twice < 2; ++twice)
    {
        o.on_mount = [&](Mount& m)
        {
            auto got = mounted_tree(m);
            for (auto& [k, v] : want)
            {
                if (!got.count(k))
                    fail("reference repository %s does not show %s", dir.c_str(), cescape(k).c_str());
                if (got[k] != v)
                    fail("reference repository %s shows %s as %s instead of %s", dir.c_str(), cescape(k).c_str(), got[k].c_str(), v.c_str());
            }
            for (auto& [k, v] : got)
                if (!want.count(k) && !(dir == "4-plain-text-names" && k[1] == '.'))
                    fail("reference repository %s shows %s that it never held", dir.c_str(), cescape(k).c_str());
        };
        auto r = cli(V{"mount", d, worker_dir() + "/mnt", "--config", cpath} + sec + extra, o);
        if (!r.mounted)
            fail("mounting the reference repository %s with %s fails: %s", dir.c_str(), conf.c_str(), r.err.substr(0, 300).c_str());
        seen++;
    }
    // With anything else it does not open.
    o.on_mount = nullptr;
    for (auto& wrong : std::vector<V>{{"--pass", "ABC"}, {"--pass", "abc"}, {"--pass", " "}, {"--keyfile", refdir() + "/keyfile"}, {"--keyfile", refdir() + "/keyfile", "--pass", "abc"}, {"--keyfile", cpath}})
    {
        if (wrong == sec || (sec.size() == 4 && wrong.size() == 4))
            continue;
        auto r = cli(V{"mount", d, worker_dir() + "/mnt", "--config", cpath} + wrong + extra, o);
        count(kTransitions);
        if (r.mounted)
            fail("the reference repository %s with %s opens with %s", dir.c_str(), conf.c_str(), wrong.back().c_str());
        expect_refused(r, "mount with a wrong secret");
    }
    // And the way it was written can be changed without changing what it holds.
    if (conf[0] == '.')
    {
        V to = {"--newpass", "fresh"}, from;
        for (auto& x : sec)
            from.push_back(x == "--pass" ? "--oldpass" : x == "--keyfile" ? "--oldkeyfile" : x);
        expect_ok(run(V{"chpass", d, "--config", cpath} + from + to + kCheap), "chpass of a reference repository");
        o.on_mount = [&](Mount& m)
        {
            if (mounted_tree(m).size() < want.size())
                fail("after chpass the reference repository lost files");
        };
        auto r = cli(V{"mount", d, worker_dir() + "/mnt", "--config", cpath, "--pass", "fresh"} + extra, o);
        if (!r.mounted)
            fail("after chpass the reference repository does not mount: %s", r.err.substr(0, 200).c_str());
    }
}
std::vector<std::pair<std::string, std::string>> reference_list(bool thorough)
{
    std::vector<std::pair<std::string, std::string>> r;
    for (auto d : {"1", "1-padded", "2", "2-padded", "3", "3-padded", "4", "4-padded", "new-full", "new-full-padded", "new-lite", "new-lite-padded"})
    {
        DIR* dd = opendir((refdir() + "/" + d).c_str());
        if (!dd)
            throw HarnessError("no reference repository " + refdir() + "/" + d);
        V names;
        while (auto* e = readdir(dd))
        {
            std::string n = e->d_name;
            if (n.find(".json") != std::string::npos || n.find(".pb") != std::string::npos)
                names.push_back(n);
        }
        closedir(dd);
        std::sort(names.begin(), names.end());
        for (auto& n : names)
            r.push_back({d, n});
    }
    r.push_back({"4-plain-text-names", "4/.securefs.argon2id.KEYFILE2.json"});
    return r;
}

// ---------------------------------------------------------------- C18
struct Cmd
{
    std::string name;
    std::string cfg;                    // of the repository beforehand; empty: none
    bool json = false;                  // its configuration is in the older format
    bool elsewhere = false;             // --config path outside
    bool dir_exists = true;
    V args;                             // with %D for the data directory and %C for the --config arguments
    std::string input;
    Secret before, after;               // the secrets before and after
    bool must_fail = false;             // whatever happens
    bool creates = false;
    int threshold = -2;                 // after the command, for migrations
    std::string suffix;
};
std::vector<Cmd> cmds()
{
    for (int i : {1, 2})
        write_file(keypath(i), keydata(i));
    Secret abc{"abc"}, xyz{"xyz"}, k1{" ", true, keydata(1)}, k1x{"xyz", true, keydata(1)};
    std::vector<Cmd> r;
    for (auto fm : {"lite", "full"})
        for (int where = 0; where < 3; ++where)
        {
            Cmd c;
            c.name = std::string("create ") + fm + (where == 1 ? ", configuration elsewhere" : where == 2 ? ", new directory" : "");
            c.dir_exists = where != 2;
            c.elsewhere = where == 1;
            c.args = V{"create", "-f", fm, "%D", "%C", "--pass", "abc"} + kCheap;
            c.after = abc;
            c.creates = true;
            r.push_back(c);
        }
    for (bool elsewhere : {false, true})
    {
        Cmd c;
        c.name = "create over an existing repository";
        c.cfg = "lite:b64";
        c.elsewhere = elsewhere;
        c.args = V{"create", "%D", "%C", "--pass", "xyz"} + kCheap;
        c.before = c.after = abc;
        c.must_fail = true;
        r.push_back(c);
    }
    for (auto cfg : {"lite:b64:t20:s.ll", "full:b64"})
        for (bool json : {false, true})
            for (int where = 0; where < 2; ++where)
                for (int to = 0; to < 3; ++to)
                {
                    Cmd c;
                    c.name = std::string("chpass ") + cfg + (json ? " json" : "") + (where ? " elsewhere" : "") + fmt(" to %d", to);
                    c.cfg = cfg;
                    c.json = json;
                    c.elsewhere = where;
                    c.before = to == 2 ? k1 : abc;
                    c.after = to == 0 ? xyz : to == 1 ? k1 : xyz;
                    c.args = V{"chpass", "%D", "%C"} + (to == 2 ? V{"--oldkeyfile", keypath(1)} : V{"--oldpass", "abc"}) + (to == 1 ? V{"--newkeyfile", keypath(1)} : V{"--newpass", "xyz"}) + kCheap;
                    r.push_back(c);
                }
    {
        Cmd c;
        c.name = "chpass with the wrong old password";
        c.cfg = "full:b64";
        c.args = V{"chpass", "%D", "%C", "--oldpass", "no", "--newpass", "xyz"} + kCheap;
        c.before = c.after = abc;
        c.must_fail = true;
        r.push_back(c);
        c.name = "chpass with a missing new key file";
        c.args = V{"chpass", "%D", "%C", "--oldpass", "abc", "--newkeyfile", "/nonexistent/key"} + kCheap;
        r.push_back(c);
    }
    for (auto cfg : {"lite:b64:t20:s.ll", "lite:b64"})
        for (bool json : {false, true})
        {
            Cmd c;
            c.name = std::string("migrate ") + cfg + (json ? " json" : "");
            c.cfg = cfg;
            c.json = json;
            if (json && c.cfg != "lite:b64")
                continue;    // the older format has only one threshold and suffix
            c.before = c.after = abc;
            c.args = V{"migrate-long-name", "%D", "%C", "--pass", "abc", "--long-name-suffix", ".x"} + kCheap;
            c.threshold = c.cfg == "lite:b64" ? 128 : 20;
            c.suffix = ".x";
            r.push_back(c);
        }
    return r;
}
struct Prepared
{
    std::string dir, conf;
    V args;
    DecryptedSecurefsParams params;
    std::string conf_bytes;
};
Prepared prepare(const Cmd& c)
{
    Prepared p;
    p.dir = clean_dir("cmd");
    std::string other = clean_dir("conf");
    mkdir(other.c_str(), 0755);
    if (c.dir_exists)
        mkdir(p.dir.c_str(), 0755);
    p.conf = c.elsewhere ? other + "/my.conf" : p.dir + (c.json ? "/.securefs.json" : "/.config.pb");
    if (!c.cfg.empty())
    {
        FsConfig f = FsConfig::parse(c.cfg);
        if (c.json)
        {
            LegacyCase l;
            l.version = f.full ? 2 : 4;
            l.mk = f.full ? 32 : 128;
            l.block = 64;
            l.kdf = 2;
            l.iv_size = 12;
            p.conf_bytes = legacy_config(l, c.before, &p.params);
        }
        else
        {
            p.params = f.params();
            EncryptedSecurefsParams::Argon2idParams a;
            a.set_time_cost(1);
            a.set_memory_cost(8);
            a.set_parallelism(1);
            MemStream ks;
            ks.buf = c.before.key;
            reseed(77);
            p.conf_bytes = securefs::encrypt(p.params, a, {(const unsigned char*)c.before.pw.data(), c.before.pw.size()}, c.before.has_key ? &ks : nullptr).SerializeAsString();
        }
        write_file(p.conf, p.conf_bytes);
    }
    for (auto& a : c.args)
        if (a == "%D")
            p.args.push_back(p.dir);
        else if (a == "%C")
        {
            if (c.elsewhere)
                p.args = p.args + V{"--config", p.conf};
        }
        else
            p.args.push_back(a);
    return p;
}
// Which secrets open the configuration now; it must be complete, with the right parameters.
void judge_config(const Cmd& c, const Prepared& p, bool* old_ok, bool* new_ok, const char* when)
{
    std::string now = file_exists(p.conf) ? read_file(p.conf) : "";
    DecryptedSecurefsParams q, want_new = p.params;
    if (c.threshold != -2)
    {
        want_new.mutable_lite_format_params()->set_long_name_threshold(c.threshold);
        want_new.mutable_lite_format_params()->set_long_name_suffix(c.suffix);
    }
    *old_ok = *new_ok = false;
    if (c.threshold != -2)
    {
        // The secret stays; the parameters tell old from new.
        if (try_open(now, c.before, &q))
        {
            if (same(q, p.params))
                *old_ok = true;
            else if (same(q, want_new))
                *new_ok = true;
            else
                fail("%s: the configuration opens, but with neither the old nor the new parameters: %s", when, q.ShortDebugString().c_str());
        }
        return;
    }
    if (!c.cfg.empty() && try_open(now, c.before, &q))
    {
        *old_ok = true;
        if (!same(q, p.params))
            fail("%s: the configuration opens with the old secret but has other parameters", when);
    }
    if (!(c.before == c.after && !c.cfg.empty()) && try_open(now, c.after, &q))
    {
        *new_ok = true;
        if (!c.cfg.empty() && !same(q, p.params))
            fail("%s: the configuration opens with the new secret but has other parameters", when);
        if (c.cfg.empty() && (q.has_lite_format_params() ? q.lite_format_params().content_key().size() != 32 : q.full_format_params().master_key().size() != 32))
            fail("%s: the created configuration has no keys", when);
    }
}
// X|cmd|- , X|cmd|k<call>:<num>/<den> , X|cmd|e<call>:<errno>
void case_config(const std::string& body)
{
    auto f = split(body, '|');
    static auto all = cmds();
    auto& c = all.at(atoi(f.at(0).c_str()));
    Prepared p = prepare(c);
    auto before_list = list_storage(p.dir);
    CliOptions o;
    o.seed = 9;
    std::string how = f.at(1);
    if (how[0] == 'k')
        sscanf(how.c_str(), "k%d:%ld/%ld", &o.crash, &o.torn_num, &o.torn_den);
    if (how[0] == 'e')
        sscanf(how.c_str(), "e%d:%d", &o.fail, &o.err);
    auto r = cli(p.args, o);
    const char* when = how[0] == 'k' ? "after the kill" : how[0] == 'e' ? "after the failing call" : "undisturbed";
    if (!r.unsynced.empty())
        fail("%s: %s was put in place before its contents were on disk", when, r.unsynced.c_str());
    bool old_ok, new_ok;
    judge_config(c, p, &old_ok, &new_ok, when);
    bool killed = how[0] == 'k' && r.code == 77;
    if (c.must_fail)
    {
        if (!killed && r.ok())
            fail("%s reports success", c.name.c_str());
        if (!old_ok || new_ok || read_file(p.conf) != p.conf_bytes)
            fail("%s %s: the existing configuration was changed", c.name.c_str(), when);
        return;
    }
    if (how[0] == '-' && !r.ok())
        fail("%s fails: %s", c.name.c_str(), r.err.substr(0, 300).c_str());
    if (killed)
    {
        if (!c.cfg.empty() && !old_ok && !new_ok)
            fail("%s, killed: the configuration opens with neither the old nor the new secret", c.name.c_str());
        if (old_ok && new_ok)
            fail("both secrets open the configuration");
    }
    else if (r.ok())
    {
        if (!new_ok)
            fail("%s %s: success is reported but the new secret is not effective (%s)", c.name.c_str(), when, r.fired_name.c_str());
        if (old_ok)
            fail("%s %s: success is reported but the old secret is still effective", c.name.c_str(), when);
    }
    else
    {
        if (r.err.empty())
            fail("%s %s: fails without any message", c.name.c_str(), when);
        if (new_ok)
            fail("%s %s (%s): failure is reported but the new secret is effective", c.name.c_str(), when, r.fired_name.c_str());
        if (c.cfg.empty() ? file_exists(p.conf) : read_file(p.conf) != p.conf_bytes)
            fail("%s %s (%s): failure is reported but the configuration was changed", c.name.c_str(), when, r.fired_name.c_str());
        if (!c.creates && c.threshold == -2 && r.fired_name != "unlink" && list_storage(p.dir) != before_list)
            fail("%s %s (%s): files are left over", c.name.c_str(), when, r.fired_name.c_str());
    }
    // A second attempt succeeds, whatever happened to the first one.
    if (!new_ok)
    {
        CliOptions again;
        again.seed = 10;
        if (c.creates && killed && file_exists(p.conf))
        {
            // Nothing existed to be lost; what was left must not be taken for a repository.
            expect_refused(cli(V{"info", p.dir, "--pass", "abc"} + (c.elsewhere ? V{"--config", p.conf} : V{}), again), "reading an incomplete configuration");
            return;
        }
        auto r2 = cli(p.args, again);
        if (!r2.ok())
            fail("%s, again %s (%s): %s", c.name.c_str(), when, r.fired_name.c_str(), r2.err.substr(0, 300).c_str());
        judge_config(c, p, &old_ok, &new_ok, "after the second attempt");
        if (!new_ok)
            fail("%s, again %s: success is reported but the new secret is not effective", c.name.c_str(), when);
    }
}
void enum_config(size_t ci)
{
    auto c = cmds().at(ci);
    auto one = [&](const std::string& how)
    {
        std::string cs = fmt("X|%zu|", ci) + how;
        begin_case(cs);
        guarded(cs, [&] { case_config(fmt("%zu|", ci) + how); });
        count(kEval);
        if (distinct(hash_str(cs)))
            count(kNontrivial);
    };
    one("-");
    Prepared p = prepare(c);
    CliOptions o;
    o.seed = 9;
    auto r = cli(p.args, o);
    count(kTransitions, r.all);
    for (int k = 0; k < r.mutating; ++k)
    {
        one(fmt("k%d:0/1", k));
        if (r.lens[k] > 1)
        {
            if (g_args.thorough() && r.lens[k] < 2000)
                for (int n = 1; n < r.lens[k]; ++n)
                    one(fmt("k%d:%d/%ld", k, n, r.lens[k]));
            else
                for (int n = 1; n < 16; ++n)
                    one(fmt("k%d:%d/16", k, n));
            one(fmt("k%d:%ld/%ld", k, r.lens[k] - 1, r.lens[k]));
        }
    }
    for (int k = 0; k < r.all; ++k)
        for (int e : {EIO, ENOSPC, EACCES})
            one(fmt("e%d:%d", k, e));
    for (int k = 0; k < r.mutating; ++k)
        if (r.lens[k] > 1)
            one(fmt("e%d:%d", k, (int)kShortWrite));
}

// ---------------------------------------------------------------- C29
struct Mig
{
    std::string cfg, to;
    V setup, alphabet;
    int dq, dt;
};
std::vector<Mig> migs()
{
    V al = {"create @f", "mkdir @d", "mkdir d", "create @d/@g", "create d/@g", "mkdir @d/@e", "create @d/@e/@h", "symlink tgt @s", "link @f @k", "rename @f @d/@g", "create s"};
    V rich = {"create @f", "write @f 0 100 1", "setx @f user.n 9 3", "mkdir @d", "create @d/@g", "write @d/@g 0 70 2", "mkdir @d/@e", "create @d/@e/@h", "mkdir d", "create d/@g", "symlink @f @s", "symlink tgt d/@t",
              "link @f d/@k", "create d/s", "create s", "chmod @g 600"};
    V none = {};
    V al2 = {"create x", "unlink @f", "create @z"};
    std::vector<Mig> r;
    for (auto& pr : std::vector<std::pair<std::string, std::string>>{
             {"lite:b64:t128", ".ll"}, {"lite:b64:t128:s.ll", "..."}, {"lite:b64:t20:s.l", "x.l"}, {"lite:b64:t20:sx.l", ".l"}, {"lite:b64:t20:s~", "~~"}, {"lite:b64:t20:p30:s.ll", ".a-rather-long-suffix"}})
    {
        r.push_back({pr.first, pr.second, none, al, 3, 4});
        r.push_back({pr.first, pr.second, rich, al2, 1, 2});
    }
    r.push_back({"lite:b64", ".ll", none, {"create ~f", "mkdir ~d", "mkdir d", "create ~d/~g", "create d/g", "create " + std::string(143, 'q'), "create " + std::string(129, 'p'), "mkdir " + std::string(140, 'r'), "create a"}, 2, 3});
    return r;
}
DumpOptions full_dump()
{
    DumpOptions o;
    o.xattr = true;
    return o;
}
// Builds the repository in worker_dir()/base and returns its model.
Model build_repo(const FsConfig& c, const V& ops, const std::string& d)
{
    FsRun r(c, d);
    r.dopt = full_dump();
    reseed(21);
    for (auto& op : ops)
        r.step(op);
    r.close_all();
    Model m = r.model;
    r.m.reset();
    EncryptedSecurefsParams::Argon2idParams a;
    a.set_time_cost(1);
    a.set_memory_cost(8);
    a.set_parallelism(1);
    write_file(d + "/.config.pb", securefs::encrypt(c.params(), a, {(const unsigned char*)"abc", 3}, nullptr).SerializeAsString());
    return m;
}
FsConfig config_now(const FsConfig& was, const std::string& d, const std::string& to, bool* migrated)
{
    DecryptedSecurefsParams p;
    std::string why;
    if (!try_open(read_file(d + "/.config.pb"), {"abc"}, &p, &why))
        fail("the configuration does not open any more: %s", why.c_str());
    FsConfig n = was;
    *migrated = false;
    if (!same(p, was.params()))
    {
        n.suffix = to;
        if (n.threshold <= 0)
            n.threshold = p.lite_format_params().long_name_threshold();
        if (!same(p, n.params()) || n.threshold < 1)
            fail("the migrated configuration has unexpected parameters: %s", p.ShortDebugString().c_str());
        *migrated = true;
    }
    return n;
}
// All rows of every table belong to the new suffix and to something present: checked by the mount
// working on it and by removing everything.
void check_migrated(const FsConfig& c, const Model& want, const std::string& d, const char* when)
{
    {
        FsRun r(c, d, false);
        r.dopt = full_dump();
        r.model = want;
        r.model.cfg = c;
        r.compare(when);
        // And it goes on working.
        for (auto op : {"create @new", "write @new 0 10 1", "mkdir @newd", "create @newd/@x", "rename @new @newd/@y"})
            r.step(op);
        r.finish(true);
    }
    auto m = std::make_unique<Mount>(d, c);
    remove_everything(*m, when);
}
V mig_args(const std::string& d, const std::string& to) { return V{"migrate-long-name", d, "--pass", "abc", "--long-name-suffix", to} + kCheap; }
// G|mig|ops|how[+how2] ; how: - , k<call>:<n>/<d> , e<call>:<errno>
void case_migrate(const std::string& body)
{
    auto f = split(body, '|');
    static auto all = migs();
    auto& g = all.at(atoi(f.at(0).c_str()));
    FsConfig c = FsConfig::parse(g.cfg);
    std::string base = worker_dir() + "/base", d = worker_dir() + "/mig";
    static std::string have;
    static Model want(c);
    std::string key = f.at(0) + "|" + f.at(1);
    if (have != key)
    {
        have.clear();
        rm_rf(base);
        V ops = g.setup;
        for (auto& op : split(f.at(1), ';'))
            if (!op.empty())
                ops.push_back(op);
        want = build_repo(c, ops, base);
        have = key;
    }
    rm_rf(d);
    copy_tree(base, d);
    bool migrated = false;
    std::string when = "undisturbed";
    auto hows = split(f.at(2), '+');
    for (auto& how : hows)
    {
        CliOptions o;
        o.seed = 31;
        if (how[0] == 'k')
            sscanf(how.c_str(), "k%d:%ld/%ld", &o.crash, &o.torn_num, &o.torn_den);
        if (how[0] == 'e')
            sscanf(how.c_str(), "e%d:%d", &o.fail, &o.err);
        auto r = cli(mig_args(d, g.to), o);
        if (!r.unsynced.empty())
            fail("%s was put in place before its contents were on disk", r.unsynced.c_str());
        config_now(c, d, g.to, &migrated);
        bool killed = how[0] == 'k' && r.code == 77;
        when = how[0] == '-' ? "after the migration" : killed ? "after the kill" : "after the failing " + r.fired_name;
        if (how[0] == '-' && !r.ok())
            fail("migration fails: %s", r.err.substr(0, 300).c_str());
        if (!killed && r.ok() != migrated && !(c.suffix == g.to))
            fail("%s the command reports %s but the configuration has %schanged", when.c_str(), r.ok() ? "success" : "failure", migrated ? "" : "not ");
        if (!killed && !r.ok() && r.err.empty())
            fail("%s: fails without any message", when.c_str());
    }
    if (!migrated)
    {
        CliOptions o;
        o.seed = 32;
        auto r = cli(mig_args(d, g.to), o);
        if (!r.ok())
            fail("%s, running the migration again fails: %s", when.c_str(), r.err.substr(0, 300).c_str());
        config_now(c, d, g.to, &migrated);
        if (!migrated)
            fail("%s, running the migration again reports success but does nothing", when.c_str());
        when += " and running it again";
    }
    check_migrated(config_now(c, d, g.to, &migrated), want, d, when.c_str());
}
void one_mig(size_t gi, const std::string& ops, const std::string& how)
{
    std::string body = fmt("%zu|", gi) + ops + "|" + how;
    begin_case("G|" + body);
    guarded("G|" + body, [&] { case_migrate(body); });
    count(kEval);
    if (distinct(hash_str(body)))
        count(kNontrivial);
}
CliResult count_mig(size_t gi, const std::string& ops)
{
    case_migrate(fmt("%zu|", gi) + ops + "|-");
    static auto all = migs();
    std::string d = worker_dir() + "/mig";
    rm_rf(d);
    copy_tree(worker_dir() + "/base", d);
    CliOptions o;
    o.seed = 31;
    auto r = cli(mig_args(d, all.at(gi).to), o);
    count(kTransitions, r.all);
    return r;
}
void enum_migrate(size_t gi, int first)
{
    auto g = migs().at(gi);
    SeqEnum e;
    e.cfg = FsConfig::parse(g.cfg);
    e.setup = g.setup;
    e.alphabet = g.alphabet;
    e.depth = g_args.thorough() ? g.dt : g.dq;
    e.max_fail = 0;
    e.first = first;
    bool rich = !g.setup.empty();
    e.f = [&](const V& ops)
    {
        // SeqEnum passes the setup along.
        V mine(ops.begin() + (ops.size() >= g.setup.size() && std::equal(g.setup.begin(), g.setup.end(), ops.begin()) ? g.setup.size() : 0), ops.end());
        std::string os = join_ops(mine);
        one_mig(gi, os, "-");
        // Interruptions: of every tree up to two operations, and of the rich ones.
        if (!(rich || (int)mine.size() <= (g_args.thorough() ? 3 : 2)))
            return;
        auto r = count_mig(gi, os);
        for (int k = 0; k < r.mutating; ++k)
        {
            one_mig(gi, os, fmt("k%d:0/1", k));
            if (r.lens[k] > 1)
            {
                one_mig(gi, os, fmt("k%d:1/2", k));
                one_mig(gi, os, fmt("e%d:%d", k, (int)kShortWrite));
            }
            if (g_args.thorough() && (int)mine.size() <= 1)
                for (int j = 0; j < r.mutating; ++j)
                    one_mig(gi, os, fmt("k%d:0/1+k%d:0/1", k, j));
        }
        for (int k = 0; k < r.all; ++k)
        {
            one_mig(gi, os, fmt("e%d:%d", k, EIO));
            if (g_args.thorough())
                one_mig(gi, os, fmt("e%d:%d", k, ENOSPC));
        }
    };
    e.run();
}
// B|cfg|suffix : requests that must be refused and change nothing
void case_bad_suffix(const std::string& body)
{
    auto f = split(body, '|');
    FsConfig c = FsConfig::parse(f.at(0));
    std::string d = clean_dir("mig");
    Model want = build_repo(c, {"create @f", "mkdir @d", "create @d/@g"}, d);
    std::string to = f.at(1) == "long" ? std::string(200, 'y') : f.at(1) == "limit" ? std::string(255 - 77, 'y') : f.at(1) == "slash" ? "a/b" : f.at(1) == "empty" ? "" : f.at(1);
    bool fits = f.at(1) == "limit" || f.at(1) == c.suffix;
    auto r = cli(mig_args(d, to), {});
    bool migrated;
    auto n = config_now(c, d, to, &migrated);
    if (fits ? !r.ok() : r.ok())
        fail("a suffix of %zu bytes %s", to.size(), fits ? "that fits is refused" : "that cannot be used is accepted");
    if (!fits && migrated)
        fail("the configuration was changed although the migration failed");
    check_migrated(n, want, d, "after a migration to an unusual suffix");
}
}    // namespace

int main(int argc, char** argv)
{
    CheckDef d;
    d.setup = [] { umask(0); };
    d.worker_init = [] { umask(0); g_virtual_now_ns = 1700000000000000000ll; };
    d.rule = "executions are distinct when configuration, input, secret, alteration or fault differ";
    d.run_case = [](const std::string& c)
    {
        std::string body = c.substr(2);
        switch (c[0])
        {
        case 'W': return case_written(body);
        case 'L': return case_legacy(body);
        case 'A': { auto f = split(body, '|'); return case_altered(f.at(0), f.at(1)); }
        case 'C': return case_commands(body);
        case 'Y': return case_typed(body);
        case 'R': return case_reference(body);
        case 'X': return case_config(body);
        case 'G': return case_migrate(body);
        case 'B': return case_bad_suffix(body);
        }
        throw HarnessError("bad case");
    };
    d.shards = []
    {
        std::vector<Shard> sh;
        std::string note;
        auto add = [&](const std::string& name, const std::string& c)
        {
            sh.push_back({name, [=]
                          {
                              begin_case(c);
                              auto body = c.substr(2);
                              switch (c[0])
                              {
                              case 'W': case_written(body); break;
                              case 'L': case_legacy(body); break;
                              case 'C': case_commands(body); break;
                              case 'Y': case_typed(body); break;
                              case 'R': case_reference(body); break;
                              case 'B': case_bad_suffix(body); break;
                              }
                              count(kEval);
                              if (distinct(hash_str(c)))
                                  count(kNontrivial);
                          }});
        };
        bool th = g_args.thorough();
        if (g_args.prop == "C17")
        {
            for (int p = 0; p < 4; ++p)
                for (size_t s = 0; s < secrets().size(); ++s)
                    for (auto c : {"1,8,1", "2,16,2", "3,64,4"})
                        add("written", fmt("W|%d|%zu|%s", p, s, c));
            for (int b = 0; b < 256; ++b)
                if (b != '\n' && b != '\r')
                    for (auto f : {"%02x", "61%02x62", "61%02x%02x"})
                        if (th || f[0] == '6')
                            add("typed", "Y|" + fmt(f, b, b));
            for (int l : {1, 2, 255, 256, 257, 1023, 1024, 2047, 2048, 3999, 4000, 4001, 5000})
            {
                std::string h;
                for (int i = 0; i < l; ++i)
                    h += fmt("%02x", 33 + i * 7 % 90);
                add("typed", "Y|" + h);
            }
            for (auto& l : legacy_cases())
                for (int s : {0, 2, 10, 11, 16})
                    if (l.way == 1 || secrets()[s].has_key)
                        add("legacy", "L|" + l.str() + fmt("|%d", s));
            for (auto& r : reference_list(th))
                add("reference", "R|" + r.first + "|" + r.second);
            int nm = 11;
            for (auto fm : {"lite", "full"})
                for (int a = 0; a < nm; ++a)
                    for (int b = -1; b < nm; ++b)
                        if (th || b == -1 || std::string(fm) == "lite" || a == 0)
                            add("commands", fmt("C|%s|%d|%d", fm, a, b));
            for (auto& id : sources(th))
                sh.push_back({"altered " + id, [=] { enum_alterations(id); }});
            note = fmt("every pair of writing and opening secret over %zu secrets, 4 parameter sets, 3 costs; %zu older configurations; every reference repository; every pair of 11 ways to give a secret to create, chpass, info and mount; typed passwords with every byte and of lengths up to the limit; every %s, cut, deletion, insertion and zeroing of %zu configurations",
                       secrets().size(), legacy_cases().size(), th ? "byte value" : "bit flip", sources(th).size());
        }
        if (g_args.prop == "C18")
        {
            size_t n = cmds().size();
            for (size_t i = 0; i < n; ++i)
                sh.push_back({"command", [=] { enum_config(i); }});
            note = fmt("%zu commands; a kill before every modifying system call and inside every write, and every system call failing with three errors; then a second attempt", n);
        }
        if (g_args.prop == "C29")
        {
            auto gs = migs();
            for (size_t i = 0; i < gs.size(); ++i)
            {
                for (size_t a = 0; a < gs[i].alphabet.size(); ++a)
                    sh.push_back({"migration", [=] { enum_migrate(i, a); }});
                note += fmt("[%s to %s: %zu operations after %zu, depth %d] ", gs[i].cfg.c_str(), gs[i].to.c_str(), gs[i].alphabet.size(), gs[i].setup.size(), th ? gs[i].dt : gs[i].dq);
            }
            for (auto s : {"long", "limit", "slash", "empty", ".ll"})
                add("unusual suffix", std::string("B|lite:b64:t20:s.ll|") + s);
            note += "a kill before (and half way through) every modifying call and every call failing, then the migration again";
        }
        set_bounds_note(note);
        return sh;
    };
    d.assumptions = {"the key derivation functions and AES-GCM are as strong as believed", "the process is killed, not the machine; data synced before a rename survives",
                     "configurations asking for absurd derivation costs are refused by a stand-in"};
    return check_main(argc, argv, d);
}
