// Reference models for the listing of files and objects: natural order, shell
// patterns, and the compression that follows from a name.
#pragma once

#include <cstring>
#include <string>

#include <mlio.h>

namespace pbt {

inline bool digit(char ch)
{
    return ch >= '0' && ch <= '9';
}

// Natural order: runs of digits compare as numbers, all else as bytes.
inline int natural(const std::string &a, const std::string &b)
{
    std::size_t i = 0;
    std::size_t j = 0;
    while (i < a.size() && j < b.size()) {
        if (digit(a[i]) && digit(b[j])) {
            std::size_t ie = i;
            std::size_t je = j;
            while (ie < a.size() && digit(a[ie])) {
                ie++;
            }
            while (je < b.size() && digit(b[je])) {
                je++;
            }
            if (ie - i != je - j) {
                return ie - i < je - j ? -1 : 1;
            }
            int r = a.compare(i, ie - i, b, j, je - j);
            if (r != 0) {
                return r;
            }
            i = ie;
            j = je;
            continue;
        }
        if (a[i] != b[j]) {
            return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[j]) ? -1 : 1;
        }
        i++;
        j++;
    }
    if (i < a.size()) {
        return 1;
    }
    return j < b.size() ? -1 : 0;
}

// Shell pattern; a * matches slashes as well.
inline bool glob(const char *p, const char *s)
{
    for (; *p != '\0'; p++) {
        if (*p == '*') {
            for (const char *t = s;; t++) {
                if (glob(p + 1, t)) {
                    return true;
                }
                if (*t == '\0') {
                    return false;
                }
            }
        }
        if (*s == '\0') {
            return false;
        }
        if (*p == '?') {
            s++;
            continue;
        }
        if (*p == '[') {
            const char *q = p + 1;
            bool neg = *q == '!';
            if (neg) {
                q++;
            }
            bool hit = false;
            do {
                if (q[1] == '-' && q[2] != ']' && q[2] != '\0') {
                    hit = hit || (*q <= *s && *s <= q[2]);
                    q += 3;
                }
                else {
                    hit = hit || *q == *s;
                    q++;
                }
            } while (*q != ']');
            if (hit == neg) {
                return false;
            }
            p = q;
            s++;
            continue;
        }
        if (*p == '\\') {
            p++;
        }
        if (*p != *s) {
            return false;
        }
        s++;
    }
    return *s == '\0';
}

inline const char *inferred(const std::string &path)
{
    auto ends = [&](const char *x) {
        std::size_t n = std::strlen(x);
        return path.size() > n && path.compare(path.size() - n, n, x) == 0 &&
               path[path.size() - n - 1] != '/';
    };
    return ends(".gz") ? "gzip" : ends(".bz2") ? "bzip2" : ends(".zip") ? "zip" : "none";
}

inline const char *name_of(mlio::Compression k)
{
    switch (k) {
    case mlio::Compression::none:
        return "none";
    case mlio::Compression::gzip:
        return "gzip";
    case mlio::Compression::bzip2:
        return "bzip2";
    case mlio::Compression::zip:
        return "zip";
    default:
        return "infer";
    }
}

}  // namespace pbt
