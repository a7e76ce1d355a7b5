// A stand-in for the parts of the AWS SDK for C++ that the S3 client of the library
// uses, with a service that lives in memory. The SDK is not installed here.
#pragma once

#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace Aws {

using String = std::string;
using IOStream = std::iostream;
template<typename T>
using Vector = std::vector<T>;

struct SDKOptions {};

namespace Http {

enum class Scheme { HTTP, HTTPS };

}  // namespace Http

namespace S3 {

enum class S3Errors {
    INCOMPLETE_SIGNATURE,
    INTERNAL_FAILURE,
    INVALID_ACTION,
    INVALID_CLIENT_TOKEN_ID,
    INVALID_PARAMETER_COMBINATION,
    INVALID_QUERY_PARAMETER,
    INVALID_PARAMETER_VALUE,
    MISSING_ACTION,
    MISSING_AUTHENTICATION_TOKEN,
    MISSING_PARAMETER,
    OPT_IN_REQUIRED,
    REQUEST_EXPIRED,
    SERVICE_UNAVAILABLE,
    THROTTLING,
    VALIDATION,
    ACCESS_DENIED,
    RESOURCE_NOT_FOUND,
    UNRECOGNIZED_CLIENT,
    MALFORMED_QUERY_STRING,
    SLOW_DOWN,
    REQUEST_TIME_TOO_SKEWED,
    INVALID_SIGNATURE,
    SIGNATURE_DOES_NOT_MATCH,
    INVALID_ACCESS_KEY_ID,
    REQUEST_TIMEOUT,
    NETWORK_CONNECTION = 99,
    UNKNOWN = 100,
    BUCKET_ALREADY_EXISTS,
    BUCKET_ALREADY_OWNED_BY_YOU,
    INVALID_OBJECT_STATE,
    NO_SUCH_BUCKET,
    NO_SUCH_KEY,
    NO_SUCH_UPLOAD,
    OBJECT_ALREADY_IN_ACTIVE_TIER,
    OBJECT_NOT_IN_ACTIVE_TIER
};

}  // namespace S3
}  // namespace Aws

namespace fake_s3 {

struct Version {
    std::string id;
    std::string data;
};

// What the service stores, how it behaves, and what it was asked.
struct Service {
    // By bucket and key; the last version is the current one.
    std::map<std::string, std::map<std::string, std::vector<Version>>> buckets;
    // How many keys the n-th page has at most.
    std::function<std::size_t(std::size_t)> page_size;
    // How many bytes of a body arrive.
    std::function<std::size_t(std::size_t)> body_size;
    // The error of a request; nothing if it succeeds.
    std::function<const Aws::S3::S3Errors *(const char *)> error;
    std::atomic<std::size_t> num_requests{0};

    // Of the client that was made last.
    std::string access_key, secret_key, session_token, profile, region;
    bool https = true;
    std::size_t num_chains = 0;
};

inline Service *service = nullptr;

}  // namespace fake_s3

namespace Aws {

inline void InitAPI(const SDKOptions &)
{}
inline void ShutdownAPI(const SDKOptions &)
{}

namespace Auth {

class AWSCredentials {
public:
    AWSCredentials() = default;
    AWSCredentials(String a, String s, String t = {})
        : a_{std::move(a)}, s_{std::move(s)}, t_{std::move(t)}
    {}
    const String &GetAWSAccessKeyId() const
    {
        return a_;
    }
    const String &GetAWSSecretKey() const
    {
        return s_;
    }
    const String &GetSessionToken() const
    {
        return t_;
    }

private:
    String a_, s_, t_;
};

class DefaultAWSCredentialsProviderChain {
public:
    DefaultAWSCredentialsProviderChain()
    {
        fake_s3::service->num_chains++;
    }
    virtual ~DefaultAWSCredentialsProviderChain() = default;
    virtual AWSCredentials GetAWSCredentials()
    {
        return {"default key", token_, "default token"};
    }

private:
    String token_ = "default secret";  // read from the object
};

}  // namespace Auth

namespace Client {

template<typename E>
class AWSError {
public:
    AWSError() = default;
    explicit AWSError(E e) : e_{e}
    {}
    E GetErrorType() const
    {
        return e_;
    }
    const String &GetMessage() const
    {
        return m_;
    }
    const String &GetExceptionName() const
    {
        return m_;
    }
    bool ShouldRetry() const
    {
        return false;
    }

private:
    E e_{};
    String m_ = "injected";
};

struct ClientConfiguration {
    ClientConfiguration() = default;
    explicit ClientConfiguration(const char *p) : profileName{p}
    {}
    String profileName;
    String region = "us-east-1";
    Http::Scheme scheme = Http::Scheme::HTTPS;
};

}  // namespace Client

namespace Utils {

template<typename R, typename E>
class Outcome {
public:
    Outcome() = default;
    Outcome(R r) : result_{std::move(r)}, ok_{true}
    {}
    Outcome(E e) : error_{std::move(e)}
    {}
    bool IsSuccess() const
    {
        return ok_;
    }
    const E &GetError() const
    {
        return error_;
    }
    const R &GetResult() const
    {
        return result_;
    }
    R &GetResult()
    {
        return result_;
    }
    R &&GetResultWithOwnership()
    {
        return std::move(result_);
    }

private:
    R result_{};
    E error_{};
    bool ok_ = false;
};

}  // namespace Utils

namespace S3 {

using S3Error = Client::AWSError<S3Errors>;

namespace Model {

#define FAKE_FIELD(T, N)                      \
public:                                       \
    auto &With##N(T v)                        \
    {                                         \
        Set##N(std::move(v));                 \
        return *this;                         \
    }                                         \
    void Set##N(T v)                          \
    {                                         \
        N##_ = std::move(v);                  \
        N##_set_ = true;                      \
    }                                         \
    const T &Get##N() const                   \
    {                                         \
        return N##_;                          \
    }                                         \
    bool N##HasBeenSet() const                \
    {                                         \
        return N##_set_;                      \
    }                                         \
                                              \
private:                                      \
    T N##_{};                                 \
    bool N##_set_ = false;

class ListObjectsV2Request {
    FAKE_FIELD(String, Bucket)
    FAKE_FIELD(String, Prefix)
    FAKE_FIELD(String, ContinuationToken)
    FAKE_FIELD(String, StartAfter)
    FAKE_FIELD(int, MaxKeys)
};

class GetObjectRequest {
    FAKE_FIELD(String, Bucket)
    FAKE_FIELD(String, Key)
    FAKE_FIELD(String, VersionId)
    FAKE_FIELD(String, Range)
};

class HeadObjectRequest {
    FAKE_FIELD(String, Bucket)
    FAKE_FIELD(String, Key)
    FAKE_FIELD(String, VersionId)
};

class Object {
    FAKE_FIELD(String, Key)
    FAKE_FIELD(long long, Size)
};

class ListObjectsV2Result {
    FAKE_FIELD(Vector<Object>, Contents)
    FAKE_FIELD(bool, IsTruncated)
    FAKE_FIELD(String, ContinuationToken)
    FAKE_FIELD(String, NextContinuationToken)
    FAKE_FIELD(int, KeyCount)
};

class HeadObjectResult {
    FAKE_FIELD(long long, ContentLength)
    FAKE_FIELD(String, VersionId)
};

class GetObjectResult {
    FAKE_FIELD(long long, ContentLength)
    FAKE_FIELD(String, VersionId)
public:
    IOStream &GetBody() const
    {
        return *body_;
    }
    void SetBody(std::string data)
    {
        body_ = std::make_unique<std::stringstream>(std::move(data));
    }

private:
    std::unique_ptr<std::stringstream> body_;
};

using ListObjectsV2Outcome = Utils::Outcome<ListObjectsV2Result, S3Error>;
using GetObjectOutcome = Utils::Outcome<GetObjectResult, S3Error>;
using HeadObjectOutcome = Utils::Outcome<HeadObjectResult, S3Error>;

}  // namespace Model

class S3Client {
public:
    S3Client() : S3Client{Auth::AWSCredentials{}, Client::ClientConfiguration{}}
    {}
    explicit S3Client(const Auth::AWSCredentials &cred, const Client::ClientConfiguration &conf)
    {
        auto &s = *fake_s3::service;
        s.access_key = cred.GetAWSAccessKeyId();
        s.secret_key = cred.GetAWSSecretKey();
        s.session_token = cred.GetSessionToken();
        s.profile = conf.profileName;
        s.region = conf.region;
        s.https = conf.scheme == Http::Scheme::HTTPS;
    }
    virtual ~S3Client() = default;

    virtual Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request &q) const
    {
        auto &s = *fake_s3::service;
        std::size_t n = s.num_requests++;
        if (auto *e = s.error ? s.error("list") : nullptr) {
            return S3Error{*e};
        }
        auto b = s.buckets.find(q.GetBucket());
        if (b == s.buckets.end()) {
            return S3Error{S3Errors::NO_SUCH_BUCKET};
        }
        std::size_t most = q.MaxKeysHasBeenSet() ? static_cast<std::size_t>(q.GetMaxKeys()) : 1000;
        if (s.page_size) {
            most = std::min(most, s.page_size(n));
        }
        Model::ListObjectsV2Result r;
        Vector<Model::Object> page;
        std::string last;
        const std::string &prefix = q.GetPrefix();
        auto pos = b->second.begin();
        if (q.ContinuationTokenHasBeenSet()) {
            const std::string &t = q.GetContinuationToken();
            if (t.compare(0, 6, "token ") != 0) {
                return S3Error{S3Errors::INVALID_PARAMETER_VALUE};
            }
            pos = b->second.upper_bound(t.substr(6));
        }
        else if (q.StartAfterHasBeenSet()) {
            pos = b->second.upper_bound(q.GetStartAfter());
        }
        r.SetIsTruncated(false);
        for (; pos != b->second.end(); ++pos) {
            if (pos->first.compare(0, prefix.size(), prefix) != 0) {
                continue;
            }
            if (page.size() == most) {
                r.SetIsTruncated(true);
                r.SetNextContinuationToken("token " + last);
                break;
            }
            Model::Object o;
            o.SetKey(pos->first);
            o.SetSize(static_cast<long long>(pos->second.back().data.size()));
            page.push_back(std::move(o));
            last = pos->first;
        }
        r.SetKeyCount(static_cast<int>(page.size()));
        r.SetContents(std::move(page));
        return r;
    }

    virtual Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest &q) const
    {
        S3Errors e{};
        auto *v = find(q, "head", e);
        if (v == nullptr) {
            return S3Error{e};
        }
        Model::HeadObjectResult r;
        r.SetContentLength(static_cast<long long>(v->data.size()));
        r.SetVersionId(v->id);
        return r;
    }

    virtual Model::GetObjectOutcome GetObject(const Model::GetObjectRequest &q) const
    {
        S3Errors e{};
        auto *v = find(q, "get", e);
        if (v == nullptr) {
            return S3Error{e};
        }
        std::string data = v->data;
        if (q.RangeHasBeenSet()) {
            unsigned long long a{}, b = UINT64_MAX;
            int end = 0;
            const std::string &range = q.GetRange();
            int n = std::sscanf(range.c_str(), "bytes=%llu-%llu%n", &a, &b, &end);
            if (n < 1 || a > b || (n == 2 && static_cast<std::size_t>(end) != range.size())) {
                // The service ignores ranges that it does not understand.
            }
            else if (a >= data.size()) {
                return S3Error{S3Errors::UNKNOWN};  // the range cannot be satisfied
            }
            else {
                data = data.substr(a, b - a >= data.size() ? std::string::npos : b - a + 1);
            }
        }
        Model::GetObjectResult r;
        r.SetContentLength(static_cast<long long>(data.size()));
        r.SetVersionId(v->id);
        auto &s = *fake_s3::service;
        if (s.body_size) {
            data.resize(std::min(data.size(), s.body_size(data.size())));
        }
        r.SetBody(std::move(data));
        return r;
    }

private:
    template<typename Q>
    static const fake_s3::Version *find(const Q &q, const char *op, S3Errors &e)
    {
        auto &s = *fake_s3::service;
        s.num_requests++;
        if (auto *x = s.error ? s.error(op) : nullptr) {
            e = *x;
            return nullptr;
        }
        auto b = s.buckets.find(q.GetBucket());
        if (b == s.buckets.end()) {
            e = S3Errors::NO_SUCH_BUCKET;
            return nullptr;
        }
        auto o = b->second.find(q.GetKey());
        e = S3Errors::NO_SUCH_KEY;
        if (o == b->second.end()) {
            return nullptr;
        }
        if (!q.VersionIdHasBeenSet() || q.GetVersionId().empty()) {
            return &o->second.back();
        }
        for (auto &v : o->second) {
            if (v.id == q.GetVersionId()) {
                return &v;
            }
        }
        e = S3Errors::RESOURCE_NOT_FOUND;
        return nullptr;
    }
};

}  // namespace S3
}  // namespace Aws
