// F04-F07: image files on a misbehaving disk, damaged image files, and what failures leave behind.
#include "common.h"
#include "huira/util/paths.hpp"
#include "huira/images/io/read_image.hpp"
#include "huira/stars/io/load_tycho2.hpp"
#include "huira/stars/io/star_catalog.hpp"
#include "simfs.h"
#include <array>
#include <cmath>
#include <iomanip>
#include <jpeglib.h>
#include <setjmp.h>
#include <zlib.h>

using namespace huira;
using sim::require;

namespace {
enum Fmt { BMP, TGA, HDR, PNG, JPG, TIF, FIT, NFMT };
const char* EXT[] = {".bmp", ".tga", ".hdr", ".png", ".jpg", ".tif", ".fits"};
const char* NAME[] = {"BMP", "TGA", "HDR", "PNG", "JPEG", "TIFF", "FITS"};
struct File {
    Fmt f = BMP;
    std::string bytes, desc;
    int w = 0, h = 0;
    std::vector<float> rgb; // 3 per pixel
    std::vector<float> a;   // empty: none
    std::vector<float> mono; // empty: the mean of rgb
    double tol = 1e-6;
    bool mono_readable = true;
    // libtiff reads a palette image whose colour map is cut off as a grey one, with no more than a warning
    bool cut_guesses = false;
};
uint8_t rb()
{
    switch (sim::wrand(6)) {
    case 0: return 0;
    case 1: return 255;
    default: return (uint8_t)sim::wrand();
    }
}
void p16(std::string& s, unsigned v)
{
    s += (char)(v & 255);
    s += (char)(v >> 8 & 255);
}
void p32(std::string& s, uint32_t v)
{
    p16(s, v & 0xffff);
    p16(s, v >> 16);
}
// pixels as bytes: rgba interleaved
struct Bytes {
    int w, h;
    std::vector<uint8_t> v;
    uint8_t* at(int x, int y) { return &v[((size_t)y * w + x) * 4]; }
};
void gen_dims(int& w, int& h)
{
    auto d = [] {
        switch (sim::wrand(8)) {
        case 0: return 1;
        case 1: return sim::wint(60, 140);
        case 2: return 16 * sim::wint(1, 3);
        default: return sim::wint(2, 24);
        }
    };
    w = d();
    h = d();
}
Bytes gen_bytes()
{
    Bytes b;
    gen_dims(b.w, b.h);
    b.v.resize((size_t)b.w * b.h * 4);
    int style = (int)sim::wrand(3);
    uint64_t s = sim::wrand();
    for (size_t i = 0; i < b.v.size() / 4; ++i)
        for (int c = 0; c < 4; ++c) {
            if (style == 0)
                b.v[i * 4 + c] = rb();
            else if (style == 1)
                b.v[i * 4 + c] = (uint8_t)((i * (7 + c) + s) >> 2); // runs and gradients
            else
                b.v[i * 4 + c] = (uint8_t)(hash64(s, i / (5 + s % 7) * 4 + c)); // runs
        }
    return b;
}
float u8(uint8_t v) { return (float)v / 255.f; }
void set_known(File& f, Bytes& b, bool alpha, bool gray = false)
{
    f.w = b.w;
    f.h = b.h;
    for (int y = 0; y < b.h; ++y)
        for (int x = 0; x < b.w; ++x) {
            uint8_t* p = b.at(x, y);
            for (int c = 0; c < 3; ++c)
                f.rgb.push_back(u8(p[gray ? 0 : c]));
            if (alpha)
                f.a.push_back(u8(p[3]));
        }
}
File gen_bmp()
{
    File f;
    f.f = BMP;
    Bytes b = gen_bytes();
    bool alpha = sim::wcoin(), top = sim::wcoin();
    static const int dibs[] = {40, 40, 52, 56, 108, 124};
    int dib = dibs[sim::wrand(6)];
    int gap = sim::wcoin(0.3) ? (int)sim::wrand(20) : 0;
    bool fields = alpha && dib >= 56 && sim::wcoin();
    int stride = (b.w * (alpha ? 4 : 3) + 3) / 4 * 4;
    std::string s = "BM";
    uint32_t off = 14 + dib + gap + (fields && dib == 40 ? 12 : 0);
    p32(s, off + stride * b.h);
    p32(s, 0);
    p32(s, off);
    p32(s, dib);
    p32(s, b.w);
    p32(s, top ? (uint32_t)-b.h : (uint32_t)b.h);
    p16(s, 1);
    p16(s, alpha ? 32 : 24);
    p32(s, fields ? 3 : 0);
    p32(s, stride * b.h);
    p32(s, 2835);
    p32(s, 2835);
    p32(s, 0);
    p32(s, 0);
    if (fields) {
        p32(s, 0xff0000);
        p32(s, 0xff00);
        p32(s, 0xff);
        p32(s, 0xff000000);
    }
    while (s.size() < off)
        s += (char)sim::wrand();
    for (int r = 0; r < b.h; ++r) {
        int y = top ? r : b.h - 1 - r;
        std::string row;
        for (int x = 0; x < b.w; ++x) {
            uint8_t* p = b.at(x, y);
            row += (char)p[2];
            row += (char)p[1];
            row += (char)p[0];
            if (alpha)
                row += (char)p[3];
        }
        while ((int)row.size() < stride)
            row += (char)sim::wrand();
        s += row;
    }
    f.bytes = s;
    f.desc = fmt("BMP %dx%d, %d bit, %s, header %d", b.w, b.h, alpha ? 32 : 24, top ? "top-down" : "bottom-up", dib);
    set_known(f, b, alpha);
    return f;
}
File gen_tga()
{
    File f;
    f.f = TGA;
    Bytes b = gen_bytes();
    static const int types[] = {1, 2, 3, 9, 10, 11};
    int type = types[sim::wrand(6)];
    bool mapped = type == 1 || type == 9, gray = type == 3 || type == 11, rle = type >= 9, alpha = !gray && sim::wcoin(), top = sim::wcoin();
    int idl = sim::wcoin(0.3) ? (int)sim::wrand(256) : 0;
    int depth = gray ? 8 : mapped ? (sim::wcoin() ? 8 : 16) : alpha ? 32 : 24;
    int first = mapped && sim::wcoin() ? (int)sim::wrand(20) : 0, ncm = 0;
    std::string cm;
    bool has_map = mapped || sim::wcoin(0.1);
    std::vector<std::array<uint8_t, 4>> map;
    if (has_map) {
        ncm = sim::wint(1, depth == 16 && mapped ? 300 : 200);
        for (int i = 0; i < ncm; ++i) {
            std::array<uint8_t, 4> e = {rb(), rb(), rb(), rb()};
            map.push_back(e);
            cm += (char)e[2];
            cm += (char)e[1];
            cm += (char)e[0];
            if (alpha || !mapped)
                cm += (char)e[3];
        }
    }
    std::string s;
    s += (char)idl;
    s += (char)(has_map ? 1 : 0);
    s += (char)type;
    p16(s, first);
    p16(s, ncm);
    s += (char)(has_map ? (alpha || !mapped ? 32 : 24) : 0);
    p16(s, sim::wrand() & 0xff);
    p16(s, 0);
    p16(s, b.w);
    p16(s, b.h);
    s += (char)depth;
    s += (char)((top ? 0x20 : 0) | (alpha ? 8 : 0));
    for (int i = 0; i < idl; ++i)
        s += (char)sim::wrand();
    s += cm;
    std::vector<std::string> px;
    for (int r = 0; r < b.h; ++r) {
        int y = top ? r : b.h - 1 - r;
        for (int x = 0; x < b.w; ++x) {
            uint8_t* p = b.at(x, y);
            std::string e;
            if (mapped) {
                int i = (p[0] * 256 + p[1]) % ncm;
                memcpy(p, map[i].data(), 4);
                i += first;
                e += (char)i;
                if (depth == 16)
                    e += (char)(i >> 8);
            } else if (gray)
                e += (char)p[0];
            else {
                e += (char)p[2];
                e += (char)p[1];
                e += (char)p[0];
                if (alpha)
                    e += (char)p[3];
            }
            px.push_back(e);
        }
    }
    if (!rle)
        for (auto& e : px)
            s += e;
    else
        for (size_t i = 0; i < px.size();) {
            size_t run = 1;
            while (i + run < px.size() && run < 128 && px[i + run] == px[i])
                ++run;
            if (run >= 2 && sim::wcoin(0.9)) {
                s += (char)(0x80 | (run - 1));
                s += px[i];
                i += run;
            } else {
                size_t n = std::min<size_t>(px.size() - i, 1 + sim::wrand(128));
                s += (char)(n - 1);
                for (size_t k = 0; k < n; ++k)
                    s += px[i + k];
                i += n;
            }
        }
    if (mapped && depth == 8 && first + ncm > 256)
        first = 0;
    f.bytes = s;
    f.desc = fmt("TGA type %d, %dx%d, %d bit, %s, %d map entries from %d", type, b.w, b.h, depth, top ? "top-down" : "bottom-up", ncm, first);
    set_known(f, b, alpha, gray);
    return f;
}
File gen_hdr()
{
    File f;
    f.f = HDR;
    Bytes b = gen_bytes();
    bool rle = b.w >= 8 && sim::wcoin(0.6);
    std::string nl = sim::wcoin(0.9) ? "\n" : "\r\n";
    std::string s = std::string(sim::wcoin() ? "#?RADIANCE" : "#?RGBE") + nl;
    if (sim::wcoin())
        s += "# a comment" + nl;
    s += "FORMAT=32-bit_rle_rgbe" + nl;
    if (sim::wcoin())
        s += "EXPOSURE=1.5" + nl;
    s += nl + fmt("-Y %d +X %d", b.h, b.w) + nl;
    f.w = b.w;
    f.h = b.h;
    for (int y = 0; y < b.h; ++y) {
        for (int x = 0; x < b.w; ++x) {
            uint8_t* p = b.at(x, y);
            if (x == 0 && p[0] == 2)
                p[0] = 3; // would look like a run-length encoded scanline
            if (p[3] > 240)
                p[3] = 240; // sums and squares of such pixels must not overflow
            for (int c = 0; c < 3; ++c)
                f.rgb.push_back(p[3] ? std::ldexp((float)p[c], (int)p[3] - 136) : 0.f);
        }
        if (!rle) {
            s.append((char*)b.at(0, y), (size_t)b.w * 4);
            continue;
        }
        s += "\2\2";
        s += (char)(b.w >> 8);
        s += (char)(b.w & 255);
        for (int c = 0; c < 4; ++c)
            for (int x = 0; x < b.w;) {
                int run = 1;
                while (x + run < b.w && run < 127 && b.at(x + run, y)[c] == b.at(x, y)[c])
                    ++run;
                if (run >= 3 || (run > 1 && sim::wcoin())) {
                    s += (char)(128 + run);
                    s += (char)b.at(x, y)[c];
                    x += run;
                } else {
                    int n = std::min(b.w - x, 1 + (int)sim::wrand(128));
                    s += (char)n;
                    for (int k = 0; k < n; ++k)
                        s += (char)b.at(x + k, y)[c];
                    x += n;
                }
            }
    }
    f.bytes = s;
    f.tol = 1e-6;
    f.desc = fmt("HDR %dx%d %s", b.w, b.h, rle ? "rle" : "flat");
    return f;
}
void png_out(png_structp p, png_bytep d, png_size_t n) { ((std::string*)png_get_io_ptr(p))->append((char*)d, n); }
void png_noflush(png_structp) {}
File gen_png()
{
    File f;
    f.f = PNG;
    static const struct { int type, depth; } kinds[] = {{0, 1}, {0, 2}, {0, 4}, {0, 8}, {0, 16}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {2, 8}, {2, 16}, {4, 8}, {4, 16}, {6, 8}, {6, 16}};
    auto k = kinds[sim::wrand(15)];
    gen_dims(f.w, f.h);
    bool inter = sim::wcoin(0.3), trns = k.type != 4 && k.type != 6 && sim::wcoin(0.3);
    int gam = (int)sim::wrand(4);
    uint64_t s = sim::wrand();
    int style = (int)sim::wrand(2);
    int max = (1 << k.depth) - 1, nch = k.type == 0 || k.type == 3 ? 1 : k.type == 4 ? 2 : k.type == 2 ? 3 : 4;
    png_color pal[256];
    png_byte ptr[256];
    int npal = 1 << (k.type == 3 ? k.depth : 1);
    for (int i = 0; i < npal && k.type == 3; ++i) {
        pal[i].red = rb();
        pal[i].green = rb();
        pal[i].blue = rb();
        ptr[i] = rb();
    }
    int ntr = k.type == 3 && trns ? 1 + (int)sim::wrand(npal) : 0;
    auto sample = [&](int x, int y, int c) -> int {
        uint64_t v = style ? hash64(s, ((uint64_t)y * 977 + x) * 4 + c) : (uint64_t)(x * (3 + c) + y * 5 + s) * (k.depth == 16 ? 700 : 1);
        return (int)(v % (max + 1));
    };
    png_color_16 tc{};
    tc.gray = (png_uint_16)sample(0, 0, 0);
    tc.red = (png_uint_16)sample(0, 0, 0);
    tc.green = (png_uint_16)sample(0, 0, 1);
    tc.blue = (png_uint_16)sample(0, 0, 2);
    std::vector<std::string> rows;
    for (int y = 0; y < f.h; ++y) {
        std::string row;
        int acc = 0, bits = 0;
        for (int x = 0; x < f.w; ++x) {
            int v[4];
            for (int c = 0; c < nch; ++c) {
                v[c] = sample(x, y, c);
                if (k.depth == 16) {
                    row += (char)(v[c] >> 8);
                    row += (char)v[c];
                } else if (k.depth == 8)
                    row += (char)v[c];
                else {
                    acc = acc << k.depth | v[c];
                    bits += k.depth;
                    if (bits == 8) {
                        row += (char)acc;
                        acc = bits = 0;
                    }
                }
            }
            float m = (float)max;
            if (k.type == 3) {
                f.rgb.push_back(u8(pal[v[0]].red));
                f.rgb.push_back(u8(pal[v[0]].green));
                f.rgb.push_back(u8(pal[v[0]].blue));
                if (trns)
                    f.a.push_back(v[0] < ntr ? u8(ptr[v[0]]) : 1.f);
            } else if (nch <= 2) {
                for (int c = 0; c < 3; ++c)
                    f.rgb.push_back((float)v[0] / m);
                if (nch == 2)
                    f.a.push_back((float)v[1] / m);
                else if (trns)
                    f.a.push_back(v[0] == tc.gray ? 0.f : 1.f);
            } else {
                for (int c = 0; c < 3; ++c)
                    f.rgb.push_back((float)v[c] / m);
                if (nch == 4)
                    f.a.push_back((float)v[3] / m);
                else if (trns)
                    f.a.push_back(v[0] == tc.red && v[1] == tc.green && v[2] == tc.blue ? 0.f : 1.f);
            }
        }
        if (bits)
            row += (char)(acc << (8 - bits));
        rows.push_back(row);
    }
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
    png_infop i = png_create_info_struct(p);
    png_set_write_fn(p, &f.bytes, png_out, png_noflush);
    png_set_compression_level(p, (int)sim::wrand(7));
    if (sim::wcoin(0.3))
        png_set_compression_buffer_size(p, 64 + sim::wrand(200)); // several IDAT chunks
    png_set_IHDR(p, i, f.w, f.h, k.depth, k.type, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    if (k.type == 3)
        png_set_PLTE(p, i, pal, npal);
    if (trns)
        png_set_tRNS(p, i, ptr, ntr, &tc);
    if (gam == 1)
        png_set_sRGB(p, i, 0);
    if (gam == 2)
        png_set_gAMA(p, i, 1.0);
    if (gam == 3)
        png_set_gAMA(p, i, 0.6);
    std::vector<png_bytep> rp;
    for (auto& r : rows)
        rp.push_back((png_bytep)r.data());
    png_set_rows(p, i, rp.data());
    png_write_png(p, i, PNG_TRANSFORM_IDENTITY, nullptr);
    png_destroy_write_struct(&p, &i);
    f.desc = fmt("PNG %dx%d type %d, %d bit%s%s, gamma %d", f.w, f.h, k.type, k.depth, inter ? ", interlaced" : "", trns ? ", transparent" : "", gam);
    return f;
}
struct JErr {
    jpeg_error_mgr m;
    jmp_buf j;
};
void jerr_exit(j_common_ptr c) { longjmp(((JErr*)c->err)->j, 1); }
void jerr_quiet(j_common_ptr) {}
// decodes with libjpeg; false: cannot
bool jpeg_oracle(const std::string& bytes, bool gray, int& w, int& h, std::vector<float>* out)
{
    jpeg_decompress_struct d;
    JErr e;
    d.err = jpeg_std_error(&e.m);
    e.m.error_exit = jerr_exit;
    e.m.output_message = jerr_quiet;
    std::vector<uint8_t>* row = new std::vector<uint8_t>;
    if (setjmp(e.j)) {
        jpeg_destroy_decompress(&d);
        delete row;
        return false;
    }
    jpeg_create_decompress(&d);
    jpeg_mem_src(&d, (unsigned char*)bytes.data(), bytes.size());
    jpeg_read_header(&d, TRUE);
    w = (int)d.image_width;
    h = (int)d.image_height;
    if (out) {
        d.out_color_space = gray ? JCS_GRAYSCALE : JCS_RGB;
        jpeg_start_decompress(&d);
        row->resize((size_t)w * d.output_components);
        while (d.output_scanline < d.output_height) {
            JSAMPROW r = row->data();
            jpeg_read_scanlines(&d, &r, 1);
            for (auto v : *row)
                out->push_back(u8(v));
        }
        jpeg_finish_decompress(&d);
    }
    jpeg_destroy_decompress(&d);
    delete row;
    return true;
}
File gen_jpg()
{
    File f;
    f.f = JPG;
    gen_dims(f.w, f.h);
    bool gray = sim::wcoin(0.3);
    int q = sim::wint(60, 100), sub = (int)sim::wrand(3), prog = (int)sim::wrand(2), rst = sim::wcoin(0.3) ? sim::wint(1, 4) : 0;
    int fx = 1 + (int)sim::wrand(9), fy = 1 + (int)sim::wrand(9), ph = (int)sim::wrand(256);
    unsigned char* buf = nullptr;
    unsigned long n = 0;
    jpeg_compress_struct c;
    JErr e;
    c.err = jpeg_std_error(&e.m);
    jpeg_create_compress(&c);
    jpeg_mem_dest(&c, &buf, &n);
    c.image_width = f.w;
    c.image_height = f.h;
    c.input_components = gray ? 1 : 3;
    c.in_color_space = gray ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&c);
    jpeg_set_quality(&c, q, TRUE);
    if (!gray && sub) {
        c.comp_info[0].h_samp_factor = 2;
        c.comp_info[0].v_samp_factor = sub == 2 ? 2 : 1;
    } else if (!gray)
        c.comp_info[0].h_samp_factor = c.comp_info[0].v_samp_factor = 1;
    c.restart_interval = rst;
    c.optimize_coding = prog;
    if (prog)
        jpeg_simple_progression(&c);
    jpeg_start_compress(&c, TRUE);
    std::vector<uint8_t> row((size_t)f.w * c.input_components);
    for (int y = 0; y < f.h; ++y) {
        for (int x = 0; x < f.w; ++x)
            for (int k = 0; k < c.input_components; ++k)
                row[(size_t)x * c.input_components + k] = (uint8_t)(x * fx + y * fy * (k + 1) + ph);
        JSAMPROW r = row.data();
        jpeg_write_scanlines(&c, &r, 1);
    }
    jpeg_finish_compress(&c);
    jpeg_destroy_compress(&c);
    f.bytes.assign((char*)buf, n);
    free(buf);
    require(jpeg_oracle(f.bytes, false, f.w, f.h, &f.rgb) && jpeg_oracle(f.bytes, true, f.w, f.h, &f.mono), "harness", "JPEG oracle");
    f.tol = 6.0 / 255; // decoders may differ by rounding and in how they interpolate chroma
    f.desc = fmt("JPEG %dx%d%s quality %d subsampling %d%s restart %d", f.w, f.h, gray ? " gray" : "", q, sub, prog ? " progressive" : "", rst);
    return f;
}
struct TMem {
    std::string* s;
    toff_t pos;
};
tsize_t tm_read(thandle_t h, tdata_t b, tsize_t n)
{
    TMem* m = (TMem*)h;
    tsize_t a = m->pos >= m->s->size() ? 0 : std::min<tsize_t>(n, (tsize_t)(m->s->size() - m->pos));
    memcpy(b, m->s->data() + (a ? m->pos : 0), (size_t)a);
    m->pos += a;
    return a;
}
tsize_t tm_write(thandle_t h, tdata_t b, tsize_t n)
{
    TMem* m = (TMem*)h;
    if (m->s->size() < m->pos + n)
        m->s->resize(m->pos + n);
    memcpy(&(*m->s)[m->pos], b, (size_t)n);
    m->pos += n;
    return n;
}
toff_t tm_seek(thandle_t h, toff_t o, int w)
{
    TMem* m = (TMem*)h;
    return m->pos = w == SEEK_SET ? o : w == SEEK_CUR ? m->pos + o : m->s->size() + o;
}
int tm_close(thandle_t) { return 0; }
toff_t tm_size(thandle_t h) { return ((TMem*)h)->s->size(); }
void tiff_quiet(thandle_t, const char*, const char*, va_list) {}
File gen_tif()
{
    File f;
    f.f = TIF;
    gen_dims(f.w, f.h);
    TIFFSetWarningHandler(nullptr);
    const bool palette = sim::wcoin(0.1);
    f.cut_guesses = palette;
    int colors = palette ? 1 : sim::wcoin() ? 3 : 1;
    int nalpha = palette ? 0 : sim::wcoin(0.3) ? 1 : 0;
    int depth = palette ? 8 : (int[]){8, 8, 16, 16, 32, -32}[sim::wrand(6)]; // -32: float
    bool white = colors == 1 && !palette && sim::wcoin(0.3), planar = !palette && colors + nalpha > 1 && sim::wcoin(0.3), tiled = sim::wcoin(0.4);
    static const int comps[] = {COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_ADOBE_DEFLATE, COMPRESSION_PACKBITS};
    int comp = comps[sim::wrand(4)];
    const char* mode = (const char*[]){"w", "wb", "wl", "w8", "w8b"}[sim::wrand(5)];
    int tw = 16 * sim::wint(1, 3), th = 16 * sim::wint(1, 3), rps = sim::wcoin() ? 1 : sim::wint(1, f.h);
    // libtiff itself cannot expand uncompressed tiles whose size is not a multiple of 1024 (it refuses them)
    if (palette && tiled && comp == COMPRESSION_NONE)
        tw = th = 32;
    bool pred = (comp == COMPRESSION_LZW || comp == COMPRESSION_ADOBE_DEFLATE) && depth > 0 && !palette && sim::wcoin();
    uint64_t s = sim::wrand();
    bool rnd = sim::wcoin();
    int n = colors + nalpha, bps = std::abs(depth) / 8;
    uint16_t cr[256], cg[256], cb[256];
    for (int i = 0; i < 256; ++i) {
        cr[i] = rb() * 257;
        cg[i] = rb() * 257;
        cb[i] = rb() * 257;
    }
    cr[0] = 0xffff;
    // samples
    std::vector<std::string> smp((size_t)f.w * f.h * n); // native bytes of each sample
    for (int y = 0; y < f.h; ++y)
        for (int x = 0; x < f.w; ++x) {
            float v[4];
            for (int c = 0; c < n; ++c) {
                uint64_t r = rnd ? hash64(s, ((uint64_t)y * 977 + x) * 4 + c) : (uint64_t)(x * (3 + c) + y * 5 + s % 999) * (depth == 16 ? 200 : depth == 32 ? 9000001 : 1);
                std::string& o = smp[((size_t)y * f.w + x) * n + c];
                if (depth == -32) {
                    v[c] = (float)((double)(r % 100003) / 50000.0 - 0.5);
                    o.assign((char*)&v[c], 4);
                } else if (depth == 8) {
                    uint8_t q = (uint8_t)r;
                    v[c] = u8(q);
                    if (palette)
                        v[c] = q;
                    o.assign((char*)&q, 1);
                } else if (depth == 16) {
                    uint16_t q = (uint16_t)r;
                    v[c] = (float)q / 65535.f;
                    o.assign((char*)&q, 2);
                } else {
                    uint32_t q = (uint32_t)r;
                    v[c] = (float)((double)q / 4294967295.0);
                    o.assign((char*)&q, 4);
                }
            }
            if (palette) {
                int i = (int)v[0];
                f.rgb.push_back(u8(cr[i] >> 8));
                f.rgb.push_back(u8(cg[i] >> 8));
                f.rgb.push_back(u8(cb[i] >> 8));
                f.a.push_back(1.f);
            } else {
                for (int c = 0; c < 3; ++c) {
                    float q = v[colors == 3 ? c : 0];
                    f.rgb.push_back(white ? 1.f - q : q);
                }
                if (nalpha)
                    f.a.push_back(v[colors]);
            }
        }
    TMem m{&f.bytes, 0};
    TIFF* t = TIFFClientOpen("mem", mode, (thandle_t)&m, tm_read, tm_write, tm_seek, tm_close, tm_size, nullptr, nullptr);
    require(t, "harness", "TIFFClientOpen");
    TIFFSetField(t, TIFFTAG_IMAGEWIDTH, (uint32_t)f.w);
    TIFFSetField(t, TIFFTAG_IMAGELENGTH, (uint32_t)f.h);
    TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, n);
    TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, std::abs(depth));
    TIFFSetField(t, TIFFTAG_SAMPLEFORMAT, depth < 0 ? SAMPLEFORMAT_IEEEFP : SAMPLEFORMAT_UINT);
    TIFFSetField(t, TIFFTAG_COMPRESSION, comp);
    TIFFSetField(t, TIFFTAG_PLANARCONFIG, planar ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG);
    TIFFSetField(t, TIFFTAG_PHOTOMETRIC, palette ? PHOTOMETRIC_PALETTE : colors == 3 ? PHOTOMETRIC_RGB : white ? PHOTOMETRIC_MINISWHITE : PHOTOMETRIC_MINISBLACK);
    TIFFSetField(t, TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
    if (palette)
        TIFFSetField(t, TIFFTAG_COLORMAP, cr, cg, cb);
    if (pred)
        TIFFSetField(t, TIFFTAG_PREDICTOR, 2);
    if (nalpha) {
        uint16_t ex[] = {(uint16_t)(s & 1 ? EXTRASAMPLE_ASSOCALPHA : EXTRASAMPLE_UNASSALPHA)};
        TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, ex);
    }
    int planes = planar ? n : 1, per = planar ? 1 : n;
    if (tiled) {
        TIFFSetField(t, TIFFTAG_TILEWIDTH, tw);
        TIFFSetField(t, TIFFTAG_TILELENGTH, th);
        for (int p = 0; p < planes; ++p)
            for (int ty = 0; ty < f.h; ty += th)
                for (int tx = 0; tx < f.w; tx += tw) {
                    std::string b((size_t)tw * th * per * bps, 0);
                    for (int y = ty; y < std::min(f.h, ty + th); ++y)
                        for (int x = tx; x < std::min(f.w, tx + tw); ++x)
                            for (int c = 0; c < per; ++c)
                                memcpy(&b[(((size_t)(y - ty) * tw + x - tx) * per + c) * bps], smp[((size_t)y * f.w + x) * n + (planar ? p : c)].data(), bps);
                    TIFFWriteTile(t, b.data(), tx, ty, 0, (uint16_t)p);
                }
    } else {
        TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, rps);
        for (int p = 0; p < planes; ++p)
            for (int y = 0; y < f.h; ++y) {
                std::string b;
                for (int x = 0; x < f.w; ++x)
                    for (int c = 0; c < per; ++c)
                        b += smp[((size_t)y * f.w + x) * n + (planar ? p : c)];
                TIFFWriteScanline(t, b.data(), y, (uint16_t)p);
            }
    }
    TIFFClose(t);
    f.desc = fmt("TIFF(%s) %dx%d, %d colours%s%s, depth %d%s%s%s, compression %d%s", mode, f.w, f.h, colors, palette ? " palette" : "", nalpha ? " + alpha" : "", depth, white ? ", min is white" : "",
                 planar ? ", planar" : "", tiled ? fmt(", tiles %dx%d", tw, th).c_str() : fmt(", %d rows per strip", rps).c_str(), comp, pred ? " predictor" : "");
    return f;
}
void card(std::string& s, const std::string& c)
{
    std::string x = c.substr(0, 80);
    x.resize(80, ' ');
    s += x;
}
void be(std::string& s, uint64_t v, int n)
{
    for (int i = n - 1; i >= 0; --i)
        s += (char)(v >> (8 * i));
}
File gen_fit()
{
    File f;
    f.f = FIT;
    gen_dims(f.w, f.h);
    int bp = (int[]){8, 16, 32, -32, -64}[sim::wrand(5)];
    int nax = sim::wcoin(0.2) ? 3 : 2;
    bool bz = bp == 16 && sim::wcoin();
    double sat = bp > 0 && sim::wcoin() ? (bp == 8 ? 255 : bp == 16 ? 4095 : 1048575) : 0;
    double max = sat ? sat : bp == 8 ? 255.0 : bp == 16 ? 32767.0 : 2147483647.0;
    std::string s;
    card(s, "SIMPLE  =                    T / conforms");
    card(s, fmt("BITPIX  = %20d", bp));
    card(s, fmt("NAXIS   = %20d", nax));
    card(s, fmt("NAXIS1  = %20d", f.w));
    card(s, fmt("NAXIS2  = %20d", f.h));
    if (nax == 3)
        card(s, fmt("NAXIS3  = %20d", 1));
    if (bz) {
        card(s, "BZERO   =              32768.0");
        card(s, "BSCALE  =                  1.0");
    }
    if (sat)
        card(s, fmt("SATURATE= %20.1f", sat));
    if (sim::wcoin())
        card(s, "OBJECT  = 'M31     '           / target");
    if (sim::wcoin())
        card(s, "COMMENT some words");
    if (sim::wcoin())
        card(s, "MYKEY   =                   42 / custom");
    int extra = sim::wcoin(0.2) ? (int)sim::wrand(60) : 0;
    for (int i = 0; i < extra; ++i)
        card(s, fmt("HISTORY line %d", i));
    card(s, "END");
    s.resize((s.size() + 2879) / 2880 * 2880, ' ');
    f.rgb.resize((size_t)f.w * f.h * 3);
    uint64_t sd = sim::wrand();
    for (int r = 0; r < f.h; ++r)
        for (int x = 0; x < f.w; ++x) {
            uint64_t v = hash64(sd, (uint64_t)r * 977 + x);
            double val;
            if (bp == 8) {
                be(s, v & 255, 1);
                val = (double)(v & 255) / max;
            } else if (bp == 16) {
                int q = (int)(v & 0xffff) - 32768;
                be(s, (uint16_t)q, 2);
                val = (q + (bz ? 32768.0 : 0.0)) / max;
            } else if (bp == 32) {
                int32_t q = (int32_t)v >> (v >> 60);
                be(s, (uint32_t)q, 4);
                val = q / max;
            } else if (bp == -32) {
                float q = (float)((double)(v % 200003) / 1e5 - 0.3);
                uint32_t u;
                memcpy(&u, &q, 4);
                be(s, u, 4);
                val = q;
            } else {
                double q = (double)(v % 200003) / 1e5 - 0.3;
                uint64_t u;
                memcpy(&u, &q, 8);
                be(s, u, 8);
                val = q;
            }
            for (int c = 0; c < 3; ++c)
                f.rgb[((size_t)(f.h - 1 - r) * f.w + x) * 3 + c] = (float)val;
        }
    s.resize((s.size() + 2879) / 2880 * 2880, 0);
    f.bytes = s;
    f.desc = fmt("FITS %dx%d, BITPIX %d%s, saturate %g", f.w, f.h, bp, bz ? ", BZERO" : "", sat);
    return f;
}
File gen_file(int only = -1)
{
    switch (only >= 0 ? only : (int)sim::wrand(NFMT)) {
    case BMP: return gen_bmp();
    case TGA: return gen_tga();
    case HDR: return gen_hdr();
    case PNG: return gen_png();
    case JPG: return gen_jpg();
    case TIF: return gen_tif();
    default: return gen_fit();
    }
}
// ---- reading ----------------------------------------------------------------------------------
struct Api {
    bool mono = false, alpha = true, buffer = false, specific = false;
    std::string show() const { return fmt("%s%s%s%s", mono ? "mono" : "RGB", alpha ? "" : ", no alpha", buffer ? ", from memory" : "", specific ? ", by format" : ""); }
};
Api gen_api(Fmt f)
{
    Api a;
    a.mono = sim::wcoin(0.4);
    a.alpha = sim::wcoin(0.7);
    a.buffer = f != FIT && sim::wcoin(0.3);
    a.specific = sim::wcoin();
    if (f == FIT)
        a = Api{true, true, false, true};
    return a;
}
struct Result {
    bool ok = false;
    std::string err, meta;
    int w = 0, h = 0, aw = 0, ah = 0;
    std::vector<float> px, a;
    uint64_t digest() const
    {
        uint64_t d = hash64((uint64_t)w * 100000 + h, (uint64_t)aw * 100000 + ah);
        for (float v : px) {
            uint32_t u;
            memcpy(&u, &v, 4);
            d = hash64(d, u);
        }
        for (float v : a) {
            uint32_t u;
            memcpy(&u, &v, 4);
            d = hash64(d, u);
        }
        return hash64(d, hash_str(meta));
    }
};
void take(Result& r, const Image<float>& i)
{
    r.w = i.width();
    r.h = i.height();
    require(i.size() == (size_t)r.w * r.h, "image-size", "an image does not hold width x height pixels");
    r.px.assign(i.data(), i.data() + i.size());
}
void take(Result& r, const Image<RGB>& i)
{
    r.w = i.width();
    r.h = i.height();
    require(i.size() == (size_t)r.w * r.h, "image-size", "an image does not hold width x height pixels");
    for (size_t k = 0; k < i.size(); ++k)
        for (int c = 0; c < 3; ++c)
            r.px.push_back(i.data()[k][c]);
}
template <class B> void take_bundle(Result& r, const B& b)
{
    take(r, b.image);
    r.aw = b.alpha.width();
    r.ah = b.alpha.height();
    require(b.alpha.size() == (size_t)r.aw * r.ah, "image-size", "an alpha image does not hold width x height pixels");
    r.a.assign(b.alpha.data(), b.alpha.data() + b.alpha.size());
    r.meta = fmt("space %d gamma %.6g", (int)b.color_space, b.gamma_value);
}
ImageFormat format_of(Fmt f)
{
    static const ImageFormat m[] = {ImageFormat::IMAGE_FORMAT_BMP, ImageFormat::IMAGE_FORMAT_TGA, ImageFormat::IMAGE_FORMAT_HDR, ImageFormat::IMAGE_FORMAT_PNG,
                                    ImageFormat::IMAGE_FORMAT_JPEG, ImageFormat::IMAGE_FORMAT_TIFF, ImageFormat::IMAGE_FORMAT_FITS};
    return m[f];
}
ImageBundle<RGB> rgb_by_format(Fmt f, const fs::path& p, bool alpha)
{
    switch (f) {
    case BMP: return read_image_bmp(p, alpha);
    case TGA: return read_image_tga(p, alpha);
    case HDR: return read_image_hdr(p);
    case PNG: return read_image_png(p, alpha);
    case JPG: return read_image_jpeg(p);
    default: return read_image_tiff_rgb(p, alpha);
    }
}
ImageBundle<float> mono_by_format(Fmt f, const fs::path& p, bool alpha)
{
    switch (f) {
    case BMP: return read_image_bmp_mono(p, alpha);
    case TGA: return read_image_tga_mono(p, alpha);
    case HDR: return read_image_hdr_mono(p);
    case PNG: return read_image_png_mono(p, alpha);
    case JPG: return read_image_jpeg_mono(p);
    default: return read_image_tiff_mono(p, alpha);
    }
}
struct Counting : std::streambuf {
    size_t n = 0;
    int overflow(int c) override
    {
        ++n;
        return c == EOF ? 0 : c;
    }
    std::streamsize xsputn(const char*, std::streamsize k) override
    {
        n += (size_t)k;
        return k;
    }
};
// Reads the file; `fail` > 0: that allocation fails
Result read(Fmt f, const fs::path& p, const Api& a, uint64_t fail = 0)
{
    Result r;
    std::vector<unsigned char> exact;
    if (a.buffer) {
        std::string s;
        if (!simfs::get(p.string(), s)) {
            r.err = "no such file";
            return r;
        }
        exact.assign(s.begin(), s.end());
    }
    unsigned char none = 0;
    const unsigned char* d = exact.empty() ? &none : exact.data();
    std::optional<ImageBundle<RGB>> c;
    std::optional<ImageBundle<float>> m;
    std::optional<std::pair<Image<float>, FitsMetadata>> t;
    sim::alloc_fail_at(fail);
    try {
        if (f == FIT)
            t.emplace(read_image_fits(p));
        else if (a.buffer && a.mono)
            m.emplace(read_image_mono(format_of(f), d, exact.size(), a.alpha));
        else if (a.buffer)
            c.emplace(read_image(format_of(f), d, exact.size(), a.alpha));
        else if (a.mono)
            m.emplace(a.specific ? mono_by_format(f, p, a.alpha) : read_image_mono(p, a.alpha));
        else
            c.emplace(a.specific ? rgb_by_format(f, p, a.alpha) : read_image(p, a.alpha));
        r.ok = true;
    } catch (const std::exception& e) {
        sim::alloc_fail_at(0);
        r.err = e.what();
    }
    sim::alloc_fail_at(0);
    if (c)
        take_bundle(r, *c);
    if (m)
        take_bundle(r, *m);
    if (t) {
        take(r, t->first);
        const FitsMetadata& x = t->second;
        std::ostringstream o;
        o << x.object << '|' << x.bunit << '|' << (x.saturate ? *x.saturate : -1) << '|' << x.comments.size() << '|' << x.history.size() << '|' << x.custom_keywords.size();
        r.meta = o.str();
    }
    return r;
}
// what the pixels must be
void check_known(const File& f, const Api& a, const Result& r, const char* what)
{
    require(r.w == f.w && r.h == f.h, "wrong-size", fmt("%s (%s): %s gave %dx%d", f.desc.c_str(), a.show().c_str(), what, r.w, r.h));
    bool alpha = a.alpha && !f.a.empty();
    require((r.aw == f.w && r.ah == f.h) == alpha && (alpha || (r.aw == 0 && r.ah == 0)), "wrong-alpha",
            fmt("%s (%s): %s gave an alpha image of %dx%d", f.desc.c_str(), a.show().c_str(), what, r.aw, r.ah));
    size_t n = (size_t)f.w * f.h;
    for (size_t i = 0; i < n; ++i) {
        for (int c = 0; c < (a.mono ? 1 : 3); ++c) {
            double want = !a.mono ? f.rgb[i * 3 + c] : !f.mono.empty() ? f.mono[i] : ((double)f.rgb[i * 3] + f.rgb[i * 3 + 1] + f.rgb[i * 3 + 2]) / 3;
            double got = r.px[a.mono ? i : i * 3 + c];
            double tol = f.tol * (1 + std::fabs(want));
            require(std::fabs(got - want) <= tol, "wrong-pixel",
                    fmt("%s (%s): %s gave %.9g instead of %.9g at (%zu,%zu) channel %d", f.desc.c_str(), a.show().c_str(), what, got, want, i % f.w, i / f.w, c));
        }
        if (alpha)
            require(std::fabs(r.a[i] - f.a[i]) <= 1e-6, "wrong-pixel", fmt("%s: %s gave alpha %.9g instead of %.9g at (%zu,%zu)", f.desc.c_str(), what, r.a[i], f.a[i], i % f.w, i / f.w));
    }
}
void quiet_log()
{
    KeepSignals k;
    Logger::enable_console_debug(false);
    Logger::enable_console_info(false);
    Logger::enable_console_warning(false);
    Logger::set_level(LogLevel::Error);
    Logger::set_buffer_size(4);
}
std::string begin()
{
    simfs::reset();
    simfs::mkdirs("/simfs/data");
    quiet_log();
    return "/simfs/data/image";
}
void closed(const std::string& what)
{
    require(simfs::open_handles() == 0, "handle-leak", what + ": still open afterwards: " + simfs::handle_names());
}

// ---- F04 ------------------------------------------------------------------------------------
void f04()
{
    const std::string base = begin();
    File f = gen_file();
    const std::string path = base + EXT[f.f];
    simfs::put(path, f.bytes);
    sim::op(f.desc + fmt(", %zu bytes", f.bytes.size()));
    sim::probe(NAME[f.f]);
    Api a0 = gen_api(f.f);
    Result r0 = read(f.f, path, a0);
    require(r0.ok, "read-refused", f.desc + " (" + a0.show() + "): reading a healthy file threw: " + r0.err);
    check_known(f, a0, r0, "a clean read");
    closed("read");
    int rounds = sim::wint(2, 5);
    for (int k = 0; k < rounds; ++k) {
        Api a = gen_api(f.f);
        int mode = (int)sim::wrand(4);
        uint64_t s1 = sim::wrand(), s2 = sim::wrand();
        if (!sim::keep_op())
            continue;
        if (mode == 0) {
            a.buffer = false;
            sim::op("read with short reads: " + a.show());
            sim::fault_enable("fs.short-read", 0.7);
            sim::fault_enable("fs.eintr", 0.2);
            Result r = read(f.f, path, a);
            sim::fault_disable("fs.short-read");
            sim::fault_disable("fs.eintr");
            require(r.ok, "read-refused", f.desc + ": short or interrupted reads made reading throw: " + r.err);
            check_known(f, a, r, "a read with short reads");
        } else if (mode == 1) {
            a.buffer = false;
            const char* ks[] = {"fs.read", "fs.open", "fs.seek", "fs.stat", "fs.close"};
            const char* kind = ks[s1 % 5];
            sim::op(fmt("read with failing %s: ", kind) + a.show());
            uint64_t e0 = simfs::errors();
            sim::fault_enable("fs.short-read", s2 & 1 ? 0.5 : 0.0);
            if (s2 & 6)
                sim::fault_nth(kind, 1 + (s2 >> 8) % 8);
            else
                sim::fault_enable(kind, 0.3);
            Result r = read(f.f, path, a);
            sim::fault_disable(kind);
            sim::fault_disable("fs.short-read");
            uint64_t e = simfs::errors() - e0;
            sim::probe(r.ok ? "fault-read-ok" : "fault-read-throws");
            if (!e)
                require(r.ok, "read-refused", f.desc + ": reading threw though nothing failed: " + r.err);
            if (r.ok)
                check_known(f, a, r, fmt("a read during which %s failed", kind).c_str());
        } else if (mode == 2) {
            size_t n = f.bytes.size();
            size_t cut = s1 % 4 == 0 ? s2 % std::min<size_t>(n, 64) : s1 % 4 == 1 ? n - 1 - s2 % std::min<size_t>(n, 64) : s2 % n;
            sim::op(fmt("read of the first %zu bytes: ", cut) + a.show());
            const std::string cp = base + "-cut" + EXT[f.f];
            simfs::put(cp, f.bytes.substr(0, cut));
            Counting cb;
            std::streambuf *oc = std::cout.rdbuf(&cb), *oe = std::cerr.rdbuf(&cb);
            Logger::enable_console_warning(true);
            Logger::set_level(LogLevel::Warning);
            Result r = read(f.f, cp, a);
            Logger::set_level(LogLevel::Error);
            Logger::enable_console_warning(false);
            std::cout.rdbuf(oc);
            std::cerr.rdbuf(oe);
            sim::probe(r.ok ? "cut-read-ok" : "cut-read-throws");
            if (r.ok && !(f.f == JPG && cb.n) && !f.cut_guesses)
                check_known(f, a, r, fmt("reading the first %zu of %zu bytes", cut, n).c_str());
            simfs::remove(cp);
        } else {
            const std::string mp = base + "-none" + EXT[f.f];
            a.buffer = false;
            Result r = read(f.f, mp, a);
            require(!r.ok, "missing-accepted", "a missing file was read");
            simfs::put(mp, "");
            r = read(f.f, mp, a);
            require(!r.ok, "missing-accepted", "an empty file was read");
            simfs::remove(mp);
        }
        closed("read");
        Api b = gen_api(f.f);
        Result y = read(f.f, path, b);
        require(y.ok, "poisoned", f.desc + ": a healthy read after the fault threw: " + y.err);
        check_known(f, b, y, "a healthy read after a fault");
    }
    sim::mix(r0.digest());
    sim::state(hash64(hash_str(f.desc), sim::faults_fired()));
}
sim::Reg r04("f04_read", f04);

// ---- F05 ------------------------------------------------------------------------------------
struct Out {
    Fmt f = PNG;
    bool mono = false;
    ImageBundle<RGB> rgb{Image<RGB>(1, 1)};
    ImageBundle<float> gray{Image<float>(1, 1)};
    int depth = 8, quality = 95;
    std::string text, artist;
    FitsMetadata meta;
    std::string desc;
    int w = 0, h = 0;
};
Out gen_out()
{
    Out o;
    o.f = (Fmt)(PNG + sim::wrand(4));
    o.mono = o.f == FIT || sim::wcoin(0.4);
    gen_dims(o.w, o.h);
    if (sim::wcoin(0.1)) { // more than the stream buffers hold
        o.w = sim::wint(100, 260);
        o.h = sim::wint(40, 160);
    }
    bool smooth = o.f == JPG, wild = o.f != JPG && sim::wcoin(0.2);
    double kx = sim::wunit() * 0.08, ky = sim::wunit() * 0.08, p0 = sim::wunit() * 6;
    auto val = [&](int x, int y, int c) -> float {
        if (smooth)
            return (float)(0.5 + 0.45 * std::sin(kx * x + ky * y + p0 + c));
        double v = sim::wunit();
        if (v < 0.05)
            return 0;
        if (v > 0.95)
            return 1;
        return (float)(wild ? v * 3 - 1 : v);
    };
    Image<RGB> rgb(o.w, o.h);
    Image<float> gray(o.w, o.h);
    bool alpha = o.f == PNG && sim::wcoin(0.4);
    Image<float> al = alpha ? Image<float>(o.w, o.h) : Image<float>();
    for (int y = 0; y < o.h; ++y)
        for (int x = 0; x < o.w; ++x) {
            if (o.mono)
                gray(x, y) = val(x, y, 0);
            else
                rgb(x, y) = RGB{val(x, y, 0), val(x, y, 1), val(x, y, 2)};
            if (alpha)
                al(x, y) = val(x, y, 3);
        }
    o.depth = o.f == FIT ? (int[]){8, 16, 32, -32, -64}[sim::wrand(5)] : o.f == JPG ? 8 : sim::wcoin() ? 8 : 16;
    o.quality = sim::wint(85, 100);
    if (o.f == FIT && o.depth > 0 && sim::wcoin())
        gray.set_sensor_bit_depth(o.depth == 8 ? 7 : o.depth == 16 ? 12 : 20);
    o.rgb = ImageBundle<RGB>(rgb, al);
    o.gray = ImageBundle<float>(gray, al);
    o.rgb.bit_depth = o.gray.bit_depth = o.f == FIT ? 8 : o.depth;
    o.rgb.color_space = o.gray.color_space = (ColorSpaceHint)sim::wrand(4);
    o.rgb.gamma_value = o.gray.gamma_value = 1.8f;
    if (sim::wcoin()) {
        o.text = std::string(sim::wrand(300), 'd');
        o.artist = "someone";
        o.meta.object = "M31";
        o.meta.exptime = 1.5f;
        o.meta.comments = {"a comment", std::string(90, 'c')};
        o.meta.history = {"made"};
        o.meta.custom_keywords.push_back({"MYKEY", 42, "custom"});
        o.meta.custom_keywords.push_back({"MYSTR", std::string("text"), ""});
    }
    o.desc = fmt("%s %dx%d %s%s depth %d", NAME[o.f], o.w, o.h, o.mono ? "mono" : "RGB", alpha ? " + alpha" : "", o.depth);
    return o;
}
Result write(const Out& o, const fs::path& p, uint64_t fail = 0)
{
    Result r;
    sim::alloc_fail_at(fail);
    try {
        switch (o.f) {
        case PNG: o.mono ? write_image_png(p, o.gray) : write_image_png(p, o.rgb); break;
        case JPG: o.mono ? write_image_jpeg(p, o.gray, o.quality) : write_image_jpeg(p, o.rgb, o.quality); break;
        case TIF: o.mono ? write_image_tiff(p, o.gray, o.text, o.artist) : write_image_tiff(p, o.rgb, o.text, o.artist); break;
        default: write_image_fits(p, o.gray.image, o.depth, o.meta);
        }
        r.ok = true;
    } catch (const std::exception& e) {
        sim::alloc_fail_at(0);
        r.err = e.what();
    }
    sim::alloc_fail_at(0);
    return r;
}
// does the file hold what was written?
void check_written(const Out& o, const std::string& path, const char* what)
{
    Api a;
    a.mono = o.f == FIT;
    a.specific = o.f == FIT;
    Result r = read(o.f, path, a);
    require(r.ok, "unreadable", o.desc + ": " + what + " cannot be read: " + r.err);
    require(r.w == o.w && r.h == o.h, "wrong-size", o.desc + ": " + what + fmt(" has %dx%d pixels", r.w, r.h));
    double q = o.f == JPG ? 0.08 : o.f == FIT ? 0 : 1.0 / ((1 << o.depth) - 1);
    double lo = 0, hi = 1;
    if (o.f == FIT && o.depth > 0) {
        int sb = o.gray.image.sensor_bit_depth();
        double full = o.depth == 8 ? 255 : o.depth == 16 ? 32767 : 2147483647.0, adc = sb ? std::pow(2.0, sb) - 1 : full;
        q = 1.0 / adc;
        hi = full / adc;
        lo = o.depth == 8 ? 1 / adc : 0;
    } else if (o.f == FIT) {
        lo = -1e30;
        hi = 1e30;
    }
    for (int y = 0; y < o.h; ++y)
        for (int x = 0; x < o.w; ++x) {
            for (int c = 0; c < (a.mono ? 1 : 3); ++c) {
                double want = o.mono ? o.gray.image(x, y) : o.rgb.image(x, y)[c];
                want = std::min(std::max(want, lo), hi);
                double got = r.px[a.mono ? (size_t)y * o.w + x : ((size_t)y * o.w + x) * 3 + c];
                require(std::fabs(got - want) <= q * 1.001 + 1e-6, "wrong-pixel", o.desc + ": " + what + fmt(" has %.9g instead of %.9g at (%d,%d) channel %d", got, want, x, y, c));
            }
            const Image<float>& al = o.mono ? o.gray.alpha : o.rgb.alpha;
            if (al.size()) {
                require(r.aw == o.w && r.ah == o.h, "wrong-alpha", o.desc + ": " + what + " has no alpha");
                double want = std::min(std::max((double)al(x, y), 0.0), 1.0);
                require(std::fabs(r.a[(size_t)y * o.w + x] - want) <= q * 1.001 + 1e-6, "wrong-pixel", o.desc + ": " + what + fmt(" has another alpha at (%d,%d)", x, y));
            }
        }
    if (o.f == FIT && !o.meta.object.empty())
        require(r.meta.find("M31|") == 0, "wrong-metadata", o.desc + ": " + what + " has metadata " + r.meta);
}
void f05()
{
    const std::string base = begin();
    Out o = gen_out();
    const std::string ref = base + "-ref" + EXT[o.f], path = sim::wcoin(0.7) ? base + EXT[o.f] : "/simfs/data/new/folder/image" + std::string(EXT[o.f]);
    sim::op(o.desc);
    sim::probe(NAME[o.f]);
    Result r0 = write(o, ref);
    require(r0.ok, "write-refused", o.desc + ": writing to a healthy disk threw: " + r0.err);
    closed("write");
    check_written(o, ref, "the written file");
    std::string want;
    require(simfs::get(ref, want), "write-missing", o.desc + ": the written file is not there");
    int rounds = sim::wint(2, 5);
    for (int k = 0; k < rounds; ++k) {
        int mode = (int)sim::wrand(5), old = (int)sim::wrand(3);
        uint64_t s1 = sim::wrand(), s2 = sim::wrand();
        if (!sim::keep_op())
            continue;
        simfs::remove(path);
        if (old == 1)
            simfs::put(path, std::string(1 + s1 % 3000, 'x'));
        if (old == 2)
            simfs::put(path, want + std::string(500, 'y'));
        uint64_t e0 = simfs::errors();
        bool must = false;
        std::string how;
        if (mode == 0) {
            how = "short writes";
            sim::fault_enable("fs.short-write", 0.6);
            must = true;
        } else if (mode == 1 || mode == 2) {
            static const char* ks[] = {"fs.write", "fs.enospc", "fs.close", "fs.open", "fs.seek", "fs.mkdir", "fs.stat", "fs.write", "fs.close", "fs.read"};
            const char* kind = ks[s1 % 10];
            how = fmt("failing %s", kind);
            if (s2 & 3)
                sim::fault_nth(kind, 1 + (s2 >> 8) % (s2 & 4 ? 3 : 40));
            else
                sim::fault_enable(kind, 0.2);
            if (s2 & 8)
                sim::fault_enable("fs.short-write", 0.5);
        } else if (mode == 3) {
            size_t n = 0;
            for (auto& x : simfs::list()) {
                std::string b;
                if (x != path && simfs::get(x, b))
                    n += b.size();
            }
            size_t cap = n + s1 % (want.size() + 200);
            how = fmt("room for %zu of %zu bytes", cap - n, want.size());
            simfs::set_capacity(std::max<size_t>(cap, 1));
        } else {
            how = "no fault";
            must = true;
        }
        sim::op("write with " + how + (old ? ", over an old file" : ""));
        Result r = write(o, path);
        simfs::set_capacity(0);
        for (const char* x : {"fs.write", "fs.enospc", "fs.close", "fs.open", "fs.seek", "fs.mkdir", "fs.stat", "fs.read", "fs.short-write"})
            sim::fault_disable(x);
        uint64_t e = simfs::errors() - e0;
        sim::probe(r.ok ? (e ? "fault-write-ok" : "write-ok") : "write-throws");
        closed("write with " + how);
        if (must || (!e && mode != 3))
            require(r.ok, "write-refused", o.desc + ": with " + how + " writing threw: " + r.err);
        if (r.ok) {
            std::string got;
            require(simfs::get(path, got), "write-missing", o.desc + ": written with " + how + ", but the file is not there");
            if (got != want) {
                require(got.size() >= want.size(), "incomplete-write", o.desc + fmt(": write with %s (%llu failed calls) returned normally, but the file has %zu of %zu bytes", how.c_str(), (unsigned long long)e, got.size(), want.size()));
                check_written(o, path, ("the file written with " + how).c_str());
                sim::violation("incomplete-write", o.desc + fmt(": write with %s (%llu failed calls) returned normally, but the file differs from a clean write (%zu bytes, %zu expected)", how.c_str(), (unsigned long long)e, got.size(), want.size()));
            }
        }
        Result y = write(o, path);
        require(y.ok, "poisoned", o.desc + ": a healthy write after one with " + how + " threw: " + y.err);
        std::string again;
        simfs::get(path, again);
        require(again == want, "poisoned", o.desc + ": a healthy write after one with " + how + " gives another file");
    }
    // an unusable image is refused
    sim::mix(want);
    sim::state(hash64(hash_str(o.desc), sim::faults_fired()));
}
sim::Reg r05("f05_write", f05);

// ---- F06 ------------------------------------------------------------------------------------
uint32_t odd32()
{
    static const uint32_t v[] = {0, 1, 2, 3, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x40000000, 0x20000001, 46341, 65536 * 3, 100000};
    return sim::wcoin(0.7) ? v[sim::wrand(sizeof v / 4)] : (uint32_t)sim::wrand(70000);
}
void fix_crc(std::string& s)
{
    size_t p = 8;
    while (p + 12 <= s.size()) {
        uint32_t n = (uint32_t)(uint8_t)s[p] << 24 | (uint32_t)(uint8_t)s[p + 1] << 16 | (uint32_t)(uint8_t)s[p + 2] << 8 | (uint8_t)s[p + 3];
        if (n > s.size() || p + 12 + n > s.size())
            break;
        uint32_t c = (uint32_t)crc32(0, (const Bytef*)&s[p + 4], n + 4);
        for (int i = 0; i < 4; ++i)
            s[p + 8 + n + i] = (char)(c >> (24 - 8 * i));
        p += 12 + n;
    }
}
std::string mutate(const File& f)
{
    std::string s = f.bytes;
    int n = 1 + (int)sim::wrand(sim::wcoin(0.8) ? 3 : 12);
    std::string what;
    for (int i = 0; i < n; ++i) {
        int m = (int)sim::wrand(9);
        uint64_t a = sim::wrand();
        uint32_t v = odd32();
        bool head = sim::wcoin(0.6), bigend = f.f == PNG || f.f == JPG ? sim::wcoin(0.9) : sim::wcoin(0.1);
        std::string other;
        if (m == 4)
            other = gen_file(f.f).bytes;
        if (!sim::keep_op() || s.empty())
            continue;
        size_t at = head ? a % std::min<size_t>(s.size(), f.f == FIT ? 2880 : 64) : a % s.size();
        if (head && f.f == TIF && s.size() > 16 && (a >> 40 & 3)) { // inside the directory
            uint32_t ifd;
            bool be_ = s[0] == 'M', big = s[2] == 43 || s[3] == 43;
            memcpy(&ifd, &s[big ? (be_ ? 12 : 8) : 4], 4);
            if (be_)
                ifd = __builtin_bswap32(ifd);
            if ((size_t)ifd + 2 < s.size())
                at = ifd + a % std::min<size_t>(s.size() - ifd, big ? 8 + 20 * 14 : 2 + 12 * 14);
            bigend = be_;
        }
        switch (m) {
        case 0:
            s[at] ^= (char)(1 << (a >> 32 & 7));
            what += fmt(" flip@%zu", at);
            break;
        case 1:
            s[at] = (char)v;
            what += fmt(" byte@%zu=%u", at, v & 255);
            break;
        case 2: {
            size_t c = a % (s.size() + 1);
            s.resize(c);
            what += fmt(" cut@%zu", c);
            break;
        }
        case 3: {
            size_t len = a >> 16 & 31;
            s.insert(at, std::string(len, (char)v));
            what += fmt(" insert %zu@%zu", len, at);
            break;
        }
        case 4: {
            size_t o = a % other.size(), l = (a >> 20) % (other.size() - o + 1);
            at = (a >> 7) % s.size();
            s = s.substr(0, at) + other.substr(o, l) + s.substr(std::min(s.size(), at + (a >> 50 & 1 ? l : 0)));
            what += fmt(" splice %zu@%zu", l, at);
            break;
        }
        case 5: {
            size_t l = std::min<size_t>(s.size() - at, 1 + (a >> 16) % 40);
            s.erase(at, l);
            what += fmt(" erase %zu@%zu", l, at);
            break;
        }
        case 6:
        case 7: {
            int w = a >> 33 & 1 ? 4 : 2;
            for (int k = 0; k < w && at + k < s.size(); ++k)
                s[at + k] = (char)(v >> 8 * (bigend ? w - 1 - k : k));
            what += fmt(" int%d@%zu=%u%s", w * 8, at, v, bigend ? " be" : "");
            break;
        }
        default: { // numbers in text headers; whole header fields
            if (f.f == HDR) {
                size_t p = s.find("-Y ");
                size_t q = p == std::string::npos ? p : s.find('\n', p);
                if (q != std::string::npos) {
                    std::string res = a & 1 ? fmt("-Y %d +X %d", (int)v, f.w) : a & 2 ? fmt("-Y %d +X %d", f.h, (int)v) : fmt("%cY %u %cX %u", a & 4 ? '+' : '-', v, a & 8 ? '+' : '-', v);
                    s.replace(p, q - p, res);
                    what += " " + res;
                }
            } else if (f.f == FIT) {
                size_t c = a % 12 * 80;
                if (c + 80 <= s.size()) {
                    std::string num = a >> 30 & 1 ? fmt("%20lld", (long long)v * (a >> 31 & 1 ? 1000003 : 1)) : a >> 32 & 1 ? fmt("%20d", (int)v) : fmt("%20g", (double)(int)v * 1e-3);
                    if (a >> 40 & 1) {
                        static const char* keys[] = {"NAXIS1  ", "NAXIS2  ", "NAXIS3  ", "NAXIS   ", "BITPIX  ", "BSCALE  ", "BZERO   ", "SATURATE", "GROUPS  ", "PCOUNT  ", "XTENSION"};
                        s.replace(c, 8, keys[(a >> 41) % 11]);
                    }
                    s.replace(c + 10, 20, num.substr(0, 20));
                    what += fmt(" card %zu: ", c / 80) + s.substr(c, 30);
                }
            } else if (f.f == PNG) {
                static const int off[] = {16, 20};
                size_t o = off[a & 1];
                if (o + 4 <= s.size()) {
                    for (int k = 0; k < 4; ++k)
                        s[o + k] = (char)(v >> (24 - 8 * k));
                    what += fmt(" size@%zu=%u", o, v);
                }
                if (a & 2 && s.size() > 28) {
                    s[24 + (a >> 8) % 5] = (char)(a >> 16 & 15);
                    what += " ihdr";
                }
            } else if (f.f == BMP || f.f == TGA) {
                static const size_t bo[] = {10, 14, 18, 22, 28, 30, 46}, to[] = {0, 1, 2, 3, 5, 7, 12, 14, 16, 17};
                size_t o = f.f == BMP ? bo[a % 7] : to[a % 10];
                int w = f.f == BMP ? 4 : (o >= 3 && o < 7) || (o >= 12 && o < 16) ? 2 : 1;
                for (int k = 0; k < w && o + k < s.size(); ++k)
                    s[o + k] = (char)(v >> 8 * k);
                what += fmt(" field@%zu=%u", o, v);
            } else if (f.f == JPG) {
                for (size_t p = 0; p + 9 < s.size(); ++p)
                    if ((uint8_t)s[p] == 0xff && ((uint8_t)s[p + 1] == 0xc0 || (uint8_t)s[p + 1] == 0xc2)) {
                        size_t o = p + 4 + a % 8;
                        s[o] = (char)v;
                        what += fmt(" sof+%zu=%u", o - p, v & 255);
                        break;
                    }
            }
        }
        }
    }
    bool crc = sim::wcoin(0.7);
    if (f.f == PNG && crc && sim::keep_op()) {
        fix_crc(s);
        what += " crc";
    }
    sim::op("damage:" + what);
    return s;
}
// the dimensions the damaged file declares; false: it does not say, or not to this parser
bool declared(Fmt f, const std::string& s, long long& w, long long& h)
{
    auto le32 = [&](size_t o) { int32_t v; memcpy(&v, &s[o], 4); return (long long)v; };
    auto be32 = [&](size_t o) { return (long long)((uint32_t)(uint8_t)s[o] << 24 | (uint32_t)(uint8_t)s[o + 1] << 16 | (uint32_t)(uint8_t)s[o + 2] << 8 | (uint8_t)s[o + 3]); };
    if (f == BMP && s.size() >= 26) {
        w = le32(18);
        h = std::llabs(le32(22));
        return true;
    }
    if (f == TGA && s.size() >= 18) {
        w = (uint8_t)s[12] | (uint8_t)s[13] << 8;
        h = (uint8_t)s[14] | (uint8_t)s[15] << 8;
        return true;
    }
    if (f == PNG && s.size() >= 24) {
        w = be32(16);
        h = be32(20);
        return s.compare(12, 4, "IHDR") == 0;
    }
    if (f == JPG) {
        int a, b;
        if (!jpeg_oracle(s, false, a, b, nullptr))
            return false;
        w = a;
        h = b;
        return true;
    }
    if (f == TIF) {
        std::string c = s;
        TMem m{&c, 0};
        TIFFSetWarningHandler(nullptr);
        TIFFErrorHandler o1 = TIFFSetErrorHandler(nullptr);
        TIFFErrorHandlerExt o2 = TIFFSetErrorHandlerExt(tiff_quiet);
        TIFF* t = TIFFClientOpen("mem", "r", (thandle_t)&m, tm_read, tm_write, tm_seek, tm_close, tm_size, nullptr, nullptr);
        bool ok = false;
        if (t) {
            uint32_t a = 0, b = 0;
            ok = TIFFGetField(t, TIFFTAG_IMAGEWIDTH, &a) && TIFFGetField(t, TIFFTAG_IMAGELENGTH, &b);
            w = a;
            h = b;
            TIFFClose(t);
        }
        TIFFSetErrorHandler(o1);
        TIFFSetErrorHandlerExt(o2);
        return ok;
    }
    if (f == FIT) {
        w = h = -1;
        for (size_t c = 0; c + 80 <= s.size() && c < 2880 * 8; c += 80) {
            std::string k = s.substr(c, 8), v = s.substr(c + 10, 20);
            if (k == "END     ")
                break;
            if (s.compare(c + 8, 2, "= ") != 0)
                continue;
            if (k == "NAXIS1  " && w < 0)
                w = atoll(v.c_str());
            if (k == "NAXIS2  " && h < 0)
                h = atoll(v.c_str());
        }
        return w >= 0 && h >= 0;
    }
    return false;
}
void f06()
{
    const std::string base = begin();
    File f = gen_file();
    const std::string path = base + EXT[f.f];
    sim::op(f.desc + fmt(", %zu bytes", f.bytes.size()));
    sim::probe(NAME[f.f]);
    sim::set_cpu_limit(20);
    int rounds = sim::wint(2, 8);
    for (int k = 0; k < rounds; ++k) {
        std::string bad = mutate(f);
        Api a = gen_api(f.f);
        if (!sim::keep_op())
            continue;
        simfs::put(path, bad);
        sim::alloc_count_reset();
        sim::alloc_limit(32 << 20);
        Result r = read(f.f, path, a);
        size_t big = sim::alloc_largest();
        sim::alloc_limit(0);
        sim::probe(r.ok ? "damaged-read-ok" : "damaged-read-throws");
        closed("read of a damaged file");
        if (f.f == BMP || f.f == TGA || f.f == HDR || f.f == FIT) {
            size_t lim = 1024 * bad.size() + (f.f == FIT ? (16u << 20) : 65536);
            require(big <= lim, "memory-exhaustion", f.desc + fmt(": a damaged file of %zu bytes asked for %zu bytes at once", bad.size(), big));
        }
        if (r.ok) {
            long long w, h;
            if (declared(f.f, bad, w, h))
                require(r.w == w && r.h == h, "wrong-size", f.desc + fmt(": the damaged file declares %lld x %lld pixels, read as %d x %d", w, h, r.w, r.h));
            require((r.aw == r.w && r.ah == r.h) || (r.aw == 0 && r.ah == 0), "wrong-alpha", f.desc + fmt(": the alpha image has %d x %d pixels", r.aw, r.ah));
            Result r2 = read(f.f, path, a);
            require(r2.ok && r2.digest() == r.digest(), "not-repeatable", f.desc + ": reading the same damaged file again gives another result" + (r2.ok ? "" : ": " + r2.err));
            sim::mix(r.digest());
        }
        simfs::put(path, f.bytes);
        Result y = read(f.f, path, a);
        require(y.ok, "poisoned", f.desc + ": the healthy file cannot be read after a damaged one: " + y.err);
        check_known(f, a, y, "a healthy read after a damaged file");
        sim::state(hash64(hash_str(f.desc), hash_str(r.err) + r.ok));
    }
}
sim::Reg r06("f06_damage", f06);
// The same damaged file read over different contents of uninitialised memory
void f06g()
{
    const std::string base = begin();
    File f = gen_file();
    const std::string path = base + EXT[f.f];
    sim::op(f.desc);
    sim::probe(NAME[f.f]);
    sim::set_cpu_limit(20);
    int rounds = sim::wint(2, 6);
    for (int k = 0; k < rounds; ++k) {
        std::string bad = sim::wcoin(0.1) ? f.bytes : mutate(f);
        Api a = gen_api(f.f);
        if (!sim::keep_op())
            continue;
        simfs::put(path, bad);
        sim::alloc_limit(32 << 20);
        Result r[3];
        for (int i = 0; i < 3; ++i) {
            sim::set_garbage(hash64(77, i) | 1);
            r[i] = read(f.f, path, a);
        }
        sim::alloc_limit(0);
        sim::probe(r[0].ok ? "damaged-read-ok" : "damaged-read-throws");
        for (int i = 1; i < 3; ++i) {
            require(r[i].ok == r[0].ok, "uninitialised", f.desc + ": the same file is sometimes read, sometimes refused, depending on uninitialised memory: " + r[0].err + r[i].err);
            if (r[i].ok && r[i].digest() != r[0].digest()) {
                size_t p = 0;
                while (p < r[0].px.size() && p < r[i].px.size() && !memcmp(&r[0].px[p], &r[i].px[p], 4))
                    ++p;
                sim::violation("uninitialised", f.desc + fmt(": the pixels depend on uninitialised memory (sample %zu of %zu)", p, r[0].px.size()));
            }
        }
        sim::mix(r[0].digest());
        sim::state(hash64(hash_str(f.desc), hash_str(r[0].err) + r[0].ok));
    }
}
sim::Reg r06g("f06_garbage", f06g);

// ---- F07 ------------------------------------------------------------------------------------
void f07()
{
    const std::string base = begin();
    // operations to choose from
    File f = gen_file();
    Out o = gen_out();
    const std::string fpath = base + "-in" + EXT[f.f], opath = base + "-out" + EXT[o.f], cpath = "/simfs/data/cat.hrsc";
    simfs::put(fpath, f.bytes);
    std::vector<StarData> stars;
    for (int i = 0, n = sim::wint(1, 30); i < n; ++i) {
        StarData s{};
        s.id = sim::wrand();
        s.RA = sim::wunit();
        s.visual_magnitude = (float)i;
        stars.push_back(s);
    }
    auto write_cat = [&] {
        StarCatalog c(stars);
        c.write_star_data(cpath);
    };
    write_cat();
    std::string cat_bytes;
    simfs::get(cpath, cat_bytes);
    Api a = gen_api(f.f);
    int rounds = sim::wint(1, 3);
    for (int k = 0; k < rounds; ++k) {
        int what = (int)sim::wrand(6); // 0-2 read image, 3-4 write image, 5 catalogue
        int how = (int)sim::wrand(4);  // allocation, device, damage / full disk, missing
        uint64_t s1 = sim::wrand(), s2 = sim::wrand();
        std::string bad = what < 3 && how == 2 ? mutate(f) : "";
        if (!sim::keep_op())
            continue;
        static const char* rk[] = {"fs.read", "fs.open", "fs.seek", "fs.close", "fs.stat"};
        static const char* wk[] = {"fs.write", "fs.enospc", "fs.close", "fs.open", "fs.seek", "fs.mkdir", "fs.stat"};
        bool wr = what == 3 || what == 4 || (what == 5 && (s1 >> 40 & 1));
        const char* kind = wr ? wk[s1 % 7] : rk[s1 % 5];
        uint64_t nth = 1 + s2 % (s2 >> 60 & 1 ? 60 : 12);
        fs::path fp(fpath), op(opath), cp(cpath), none("/simfs/data/none" + std::string(EXT[f.f])), nodir("/simfs/data/in.bmp/x" + std::string(EXT[o.f]));
        std::string label = what < 3 ? "reading " + f.desc : what < 5 ? "writing " + o.desc : wr ? "writing a catalogue" : "reading a catalogue";
        label += how == 0 ? fmt(" with allocation %llu failing", (unsigned long long)nth) : how == 1 ? fmt(" with %s call %llu failing", kind, (unsigned long long)nth) : how == 2 ? (wr ? " on a full disk" : " of damaged bytes") : " missing";
        sim::op(label);
        simfs::put("/simfs/data/in.bmp", "x"); // a file where a folder should be
        auto once = [&]() -> bool {
            bool ok = false;
            if (how == 1)
                sim::fault_nth(kind, nth);
            if (how == 2 && what < 3)
                simfs::put(fpath, bad);
            if (how == 2 && what == 5 && !wr)
                simfs::put(cpath, cat_bytes.substr(0, s2 % cat_bytes.size()));
            if (how == 2 && wr) {
                simfs::remove(what == 5 ? cpath : opath);
                size_t n = 0;
                for (auto& x : simfs::list()) {
                    std::string b;
                    simfs::get(x, b);
                    n += b.size();
                }
                simfs::set_capacity(n + 1 + s2 % 600);
            }
            sim::alloc_limit(32 << 20);
            if (what < 3)
                ok = read(f.f, how == 3 ? none : fp, a, how == 0 ? nth : 0).ok;
            else if (what < 5)
                ok = write(o, how == 3 ? nodir : op, how == 0 ? nth : 0).ok;
            else {
                sim::alloc_fail_at(how == 0 ? nth : 0);
                try {
                    if (wr) {
                        StarCatalog c(stars);
                        c.write_star_data(how == 3 ? nodir : cp);
                    } else
                        StarCatalog::read_star_data(how == 3 ? none : cp);
                    ok = true;
                } catch (const std::exception&) {
                    sim::alloc_fail_at(0);
                }
                sim::alloc_fail_at(0);
            }
            sim::alloc_limit(0);
            sim::fault_disable(kind);
            simfs::set_capacity(0);
            return ok;
        };
        // The same failure again and again must not make the process grow. The first rounds may
        // fill caches of the libraries; later ones must not take anything.
        const int N = 8;
        int64_t live[N];
        bool ok = false;
        for (int i = 0; i < N; ++i) {
            ok = once();
            if (i == 0)
                sim::track_begin();
            live[i] = sim::live_blocks();
        }
        sim::probe(ok ? "op-ok" : "op-fails");
        closed(label);
        bool grows = true;
        for (int i = 3; i < N; ++i)
            grows &= live[i] > live[i - 1];
        require(!grows, "memory-leak", label + fmt(": every repetition leaves %lld more blocks allocated", (long long)(live[N - 1] - live[N - 2])));
        // and everything works afterwards
        simfs::put(fpath, f.bytes);
        Result r = read(f.f, fp, a);
        require(r.ok, "poisoned", "after " + label + ": reading a healthy file threw: " + r.err);
        check_known(f, a, r, "a healthy read after a failure");
        Result w = write(o, op);
        require(w.ok, "poisoned", "after " + label + ": writing threw: " + w.err);
        check_written(o, opath, "the file written after a failure");
        write_cat();
        std::string again;
        simfs::get(cpath, again);
        require(again == cat_bytes, "poisoned", "after " + label + ": a catalogue is written differently");
        require(StarCatalog::read_star_data(cp).get_star_data().size() == stars.size(), "poisoned", "after " + label + ": a catalogue is read differently");
        sim::state(hash_str(label));
    }
}
sim::Reg r07("f07_after", f07);
} // namespace
