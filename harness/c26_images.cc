// C26: images decode to the pixels of the documented transformation.
#include <zlib.h>

#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>

#include "csv_model.h"
#include "encode.h"

#include <mlio/image_reader.h>

using namespace mlio;
using namespace pbt;

namespace {

enum class Kind { pgm, ppm, png_grey, png_rgb, png_rgba, bmp, jpeg, garbage, empty, short_header };

struct Image {
    Kind kind{};
    int w{};
    int h{};
    int channels{};
    std::vector<std::uint8_t> px;  // row by row, RGB(A) order
    bool deep{};                   // 16 bits per channel, px has the upper halves
    std::string bytes;
};

void put_be32(std::string &s, std::uint32_t v)
{
    for (int i = 3; i >= 0; i--) {
        s += static_cast<char>(v >> (8 * i));
    }
}

void put_chunk(std::string &s, const std::string &type, const std::string &data)
{
    put_be32(s, static_cast<std::uint32_t>(data.size()));
    std::string body = type + data;
    s += body;
    put_be32(s, static_cast<std::uint32_t>(::crc32(
                    0, reinterpret_cast<const Bytef *>(body.data()), static_cast<uInt>(body.size()))));
}

std::string png(int w, int h, int channels, const std::vector<std::uint8_t> &px, int level, bool deep)
{
    std::string s = "\x89PNG\r\n\x1a\n";
    std::string head;
    put_be32(head, static_cast<std::uint32_t>(w));
    put_be32(head, static_cast<std::uint32_t>(h));
    head += deep ? '\x10' : '\x08';
    head += channels == 1 ? '\0' : channels == 3 ? '\x02' : '\x06';
    head += std::string(3, '\0');
    put_chunk(s, "IHDR", head);
    std::string raw;
    std::size_t row = static_cast<std::size_t>(w * channels);
    for (int y = 0; y < h; y++) {
        raw += '\0';
        auto *p = reinterpret_cast<const char *>(px.data()) + static_cast<std::size_t>(y) * row;
        if (deep) {
            for (std::size_t i = 0; i < row; i++) {
                raw += p[i];
                raw += static_cast<char>(i * 37);
            }
        }
        else {
            raw.append(p, row);
        }
    }
    put_chunk(s, "IDAT", deflate(raw, level, false));
    put_chunk(s, "IEND", "");
    return s;
}

// Written by OpenCV.
std::string encoded(const Image &m, const char *extension)
{
    cv::Mat img(m.h, m.w, CV_8UC3);
    std::copy(m.px.begin(), m.px.end(), img.ptr());
    cv::cvtColor(img, img, cv::COLOR_RGB2BGR);
    std::vector<std::uint8_t> out;
    cv::imencode(extension, img, out);
    return {out.begin(), out.end()};
}

// A segment of a JPEG file that holds nothing but the orientation.
std::string exif(char orientation)
{
    std::string body{"Exif\0\0MM\0\x2a\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0", 25};
    body += orientation;
    body += std::string(6, '\0');
    auto n = body.size() + 2;
    return std::string{"\xff\xe1"} + static_cast<char>(n >> 8) + static_cast<char>(n) + body;
}

Image any_image(Case &c, std::size_t crop_h, std::size_t crop_w)
{
    Image m;
    m.kind = static_cast<Kind>(c.weighted({3, 4, 3, 4, 4, 1, 2, 1, 1, 1}));
    auto side = [&](std::size_t crop) {
        switch (c.weighted({4, 2, 2})) {
        case 0:
            return static_cast<int>(crop + c.draw(6));
        case 1:
            return static_cast<int>(1 + c.draw(30));
        default:
            return static_cast<int>(crop);
        }
    };
    m.w = side(crop_w);
    m.h = side(crop_h);
    switch (m.kind) {
    case Kind::pgm:
    case Kind::png_grey:
        m.channels = 1;
        break;
    case Kind::png_rgba:
        m.channels = 4;
        break;
    default:
        m.channels = 3;
        break;
    }
    m.px.resize(static_cast<std::size_t>(m.w * m.h * m.channels));
    bool flat = c.chance(1, 8);
    std::uint32_t x = static_cast<std::uint32_t>(c.rng()());
    for (auto &p : m.px) {
        p = static_cast<std::uint8_t>(x >> 24);
        if (!flat) {
            x = x * 1664525 + 1013904223;
        }
    }
    switch (m.kind) {
    case Kind::pgm:
        m.bytes = pgm(m.w, m.h, m.px);
        break;
    case Kind::ppm:
        m.bytes = ppm(m.w, m.h, m.px);
        break;
    case Kind::png_grey:
    case Kind::png_rgb:
    case Kind::png_rgba:
        m.deep = c.chance(1, 6);
        m.bytes = png(m.w, m.h, m.channels, m.px, static_cast<int>(c.draw(9)), m.deep);
        break;
    case Kind::bmp:
        m.bytes = encoded(m, ".bmp");
        break;
    case Kind::jpeg:
        m.bytes = encoded(m, ".jpg");
        if (c.flag()) {
            // A camera that was held in another way.
            m.bytes.insert(2, exif(static_cast<char>(1 + c.draw(7))));
        }
        break;
    case Kind::garbage:
        m.bytes = "neither an image nor empty" + std::string(c.draw(40), 'x');
        break;
    default:
        break;
    }
    return m;
}

struct Settings {
    int channels{};
    std::size_t h{};
    std::size_t w{};
    std::optional<std::size_t> resize;
    bool to_rgb{};
};

// The decoded image, in the order of OpenCV.
cv::Mat decoded(const Image &m, int channels)
{
    if (m.px.empty() || m.kind >= Kind::garbage) {
        return {};
    }
    if (channels == 4 && (m.channels != 4 || m.deep)) {
        return {};
    }
    if (channels == 1 && m.channels != 1) {
        // The weights of the colours are those of the decoder.
        std::vector<std::uint8_t> buf(m.bytes.begin(), m.bytes.end());
        return cv::imdecode(buf, cv::IMREAD_GRAYSCALE);
    }
    if (m.kind == Kind::jpeg) {
        // Not without loss; and the decoder turns it upright.
        std::vector<std::uint8_t> buf(m.bytes.begin(), m.bytes.end());
        return cv::imdecode(buf, cv::IMREAD_COLOR);
    }
    cv::Mat out(m.h, m.w, channels == 1 ? CV_8UC1 : channels == 3 ? CV_8UC3 : CV_8UC4);
    for (int y = 0; y < m.h; y++) {
        for (int x = 0; x < m.w; x++) {
            const std::uint8_t *s = &m.px[static_cast<std::size_t>((y * m.w + x) * m.channels)];
            std::uint8_t *d = out.ptr(y) + x * channels;
            if (channels == 1) {
                d[0] = s[0];
            }
            else {
                for (int k = 0; k < 3; k++) {
                    d[k] = m.channels == 1 ? s[0] : s[2 - k];
                }
                if (channels == 4) {
                    d[3] = s[3];
                }
            }
        }
    }
    return out;
}

// The pixels of the example, or nothing for a bad image.
std::optional<std::vector<std::uint8_t>> expected(const Image &m, const Settings &s)
{
    cv::Mat img = decoded(m, s.channels);
    if (img.empty()) {
        return {};
    }
    if (s.resize) {
        auto edge = static_cast<std::size_t>(*s.resize);
        auto w = static_cast<std::size_t>(img.cols);
        auto h = static_cast<std::size_t>(img.rows);
        std::size_t new_w = w < h ? edge : edge * w / h;
        std::size_t new_h = w < h ? edge * h / w : edge;
        if (edge == 0) {
            return {};
        }
        if (new_w != w || new_h != h) {
            cv::Mat r;
            cv::resize(img, r, cv::Size(static_cast<int>(new_w), static_cast<int>(new_h)));
            img = r;
        }
    }
    auto rows = static_cast<std::size_t>(img.rows);
    auto cols = static_cast<std::size_t>(img.cols);
    if (rows < s.h || cols < s.w) {
        return {};
    }
    std::size_t top = (rows - s.h) / 2;
    std::size_t left = (cols - s.w) / 2;
    std::vector<std::uint8_t> out;
    auto n = static_cast<std::size_t>(s.channels);
    for (std::size_t y = 0; y < s.h; y++) {
        for (std::size_t x = 0; x < s.w; x++) {
            const std::uint8_t *p = img.ptr(static_cast<int>(top + y)) + (left + x) * n;
            for (std::size_t k = 0; k < n; k++) {
                out.push_back(p[s.to_rgb && n > 1 && k < 3 ? 2 - k : k]);
            }
        }
    }
    return out;
}

}  // namespace

PBT_TEST(C26, pixels)
{
    static const std::vector<int> any_channels{3, 1, 4};
    Settings s;
    s.channels = c.pick(any_channels);
    s.h = 1 + c.draw(7);
    s.w = 1 + c.draw(7);
    if (c.flag()) {
        s.resize = c.chance(1, 20) ? 0 : 1 + c.draw(15);
    }
    s.to_rgb = c.flag();
    bool recordio = c.flag();

    std::vector<Image> images;
    std::vector<std::optional<std::vector<std::uint8_t>>> want;
    std::size_t n = 1 + c.size(8);
    std::string what;
    std::string record_bytes;
    Data_reader_params p;
    bool any_bad = false;
    for (std::size_t i = 0; i < n; i++) {
        Image m = any_image(c, s.h, s.w);
        if (m.kind == Kind::short_header && !recordio) {
            m.kind = Kind::empty;
        }
        what += " " + std::to_string(static_cast<int>(m.kind)) + ":" + std::to_string(m.w) + "x" +
                std::to_string(m.h) + "x" + std::to_string(m.channels);
        if (recordio) {
            std::string payload(24, '\0');
            for (auto &ch : payload) {
                ch = static_cast<char>(c.rng()());
            }
            payload += m.bytes;
            if (m.kind == Kind::short_header) {
                payload.resize(c.draw(23));
            }
            if (payload.size() > 16 && c.chance(1, 5)) {
                std::size_t cut = 4 * (1 + c.draw(payload.size() / 4 - 1));
                put_record(record_bytes, payload.substr(0, cut), 1);
                put_record(record_bytes, payload.substr(cut), 3);
            }
            else {
                put_record(record_bytes, payload);
            }
            if (c.chance(1, 4)) {
                p.dataset.push_back(make_store(c, record_bytes, any_delivery(c)));
                record_bytes.clear();
            }
        }
        else {
            p.dataset.push_back(make_store(c, m.bytes, any_delivery(c)));
        }
        want.push_back(expected(m, s));
        any_bad = any_bad || !want.back();
        images.push_back(std::move(m));
    }
    if (!record_bytes.empty()) {
        p.dataset.push_back(make_store(c, record_bytes, any_delivery(c)));
    }
    p.batch_size = 1 + c.draw(4);
    p.bad_example_handling = static_cast<Bad_example_handling>(c.draw(4));
    any_parallelism(c, p);
    c.desc(recordio ? "recordio " : "files ", s.channels, "x", s.h, "x", s.w, " resize ",
           s.resize ? std::to_string(*s.resize) : "no", s.to_rgb ? " rgb" : " bgr", ", images", what,
           ", batch ", p.batch_size, ", bad ", static_cast<int>(p.bad_example_handling));

    using B = Bad_example_handling;
    B handling = p.bad_example_handling;
    bool pad = handling == B::pad || handling == B::pad_warn;
    Image_reader_params ip;
    if (recordio) {  // otherwise the defaults, which are documented
        ip.image_frame = Image_frame::recordio;
    }
    ip.image_dimensions = {static_cast<std::size_t>(s.channels), s.h, s.w};
    ip.resize = s.resize;
    if (s.to_rgb) {
        ip.to_rgb = true;
    }
    std::size_t batch = p.batch_size;
    auto r = make_intrusive<Image_reader>(p, ip);
    std::size_t image_size = s.h * s.w * static_cast<std::size_t>(s.channels);
    std::size_t good_images = 0;
    std::size_t epochs = c.chance(1, 6) ? 2 : 1;
    for (std::size_t ep = 0; ep < epochs; ep++) {
        bool failed = false;
        for (std::size_t at = 0; at < n; at += batch) {
            std::size_t end = std::min(n, at + batch);
            std::vector<std::uint8_t> px;
            std::size_t bad = 0;
            for (std::size_t i = at; i < end; i++) {
                if (want[i]) {
                    px.insert(px.end(), want[i]->begin(), want[i]->end());
                    good_images++;
                }
                else {
                    bad++;
                }
            }
            if (bad > 0 && !pad) {
                if (handling == B::error) {
                    Intrusive_ptr<Example> e;
                    auto kind = kind_of_error([&] { e = r->read_example(); });
                    ENSURE(kind == "instance" || kind == "invalid_argument",
                           "a batch with a bad image ends with '", kind, "'");
                    failed = true;
                    break;
                }
                continue;
            }
            Intrusive_ptr<Example> e;
            auto kind = kind_of_error([&] { e = r->read_example(); });
            if (!kind.empty()) {
                // The error of a later example may come early.
                bool later = false;
                for (std::size_t i = at; i < n; i++) {
                    later = later || !want[i];
                }
                ENSURE(handling == B::error && later &&
                           (kind == "instance" || kind == "invalid_argument"),
                       "reading the batch at ", at, " fails with '", kind, "'");
                failed = true;
                break;
            }
            ENSURE(e != nullptr, "the dataset ends before image ", at);
            ENSURE(e->features().size() == 1 && e->schema().attributes()[0].name() == "value",
                   "the features of the example");
            auto *t = dynamic_cast<Dense_tensor *>(e->features()[0].get());
            ENSURE(t != nullptr && t->data_type() == Data_type::uint8, "the type of the tensor");
            Size_vector shape{end - at, s.h, s.w, static_cast<std::size_t>(s.channels)};
            ENSURE(t->shape() == shape, "the shape is ", t->repr());
            ENSURE(e->padding == bad, "the padding is ", e->padding, " instead of ", bad);
            auto got = t->data().as<std::uint8_t>();
            ENSURE(got.size() >= px.size(), "the tensor has ", got.size(), " bytes");
            for (std::size_t i = 0; i < px.size(); i++) {
                ENSURE(got[i] == px[i], "byte ", i % image_size, " of good image ", i / image_size,
                       " of the batch at ", at, " is ", static_cast<int>(got[i]), " instead of ",
                       static_cast<int>(px[i]));
            }
        }
        if (!failed) {
            ENSURE(r->read_example() == nullptr, "an example too many");
        }
        r->reset();
    }
    c.tag(any_bad ? "bad images" : "good images");
    c.nontrivial(good_images > 0 && (s.resize || n > 1));
}

// The dimensions have to be complete and the number of channels supported.
PBT_TEST_W(C26, invalid_dimensions, 0.05)
{
    Image_reader_params ip;
    std::size_t n = c.draw(5);
    for (std::size_t i = 0; i < n; i++) {
        ip.image_dimensions.push_back(1 + c.draw(5));
    }
    Data_reader_params p;
    p.batch_size = 1;
    p.dataset.push_back(make_store(c, ppm(6, 6, std::vector<std::uint8_t>(108, 7)), Delivery::memory));
    c.desc(join(ip.image_dimensions));
    std::size_t k = n > 0 ? ip.image_dimensions[0] : 0;
    auto kind = kind_of_error([&] {
        auto r = make_intrusive<Image_reader>(p, ip);
        auto e = r->read_example();
        ENSURE(e != nullptr, "no example");
    });
    if (n == 3 && (k == 1 || k == 3)) {
        ENSURE(kind.empty(), "reading fails with '", kind, "'");
    }
    else {
        ENSURE(kind == "invalid_argument", "the dimensions ", join(ip.image_dimensions),
               " end with '", kind, "'");
    }
    c.nontrivial(n == 3);
}
