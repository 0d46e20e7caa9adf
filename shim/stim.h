// A small stand-in for the part of stim's C++ API that PyMatching uses. stim itself is not
// available offline. Semantics follow stim's documented file formats and DEM language.
#ifndef VERIF_STIM_SHIM_H
#define VERIF_STIM_SHIM_H

#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace stim {

constexpr size_t MAX_BITWORD_WIDTH = 64;

// ---------------------------------------------------------------- DEM
constexpr uint64_t OBSERVABLE_BIT_ = uint64_t{1} << 63;
constexpr uint64_t SEPARATOR_SYGIL_ = UINT64_MAX;

struct DemTarget {
    uint64_t data;
    static DemTarget observable_id(uint64_t id) {
        return {OBSERVABLE_BIT_ | id};
    }
    static DemTarget relative_detector_id(uint64_t id) {
        return {id};
    }
    static DemTarget separator() {
        return {SEPARATOR_SYGIL_};
    }
    uint64_t raw_id() const {
        return data & ~OBSERVABLE_BIT_;
    }
    uint64_t val() const {
        if (data == SEPARATOR_SYGIL_)
            throw std::invalid_argument("Separator doesn't have an integer value.");
        return raw_id();
    }
    bool is_observable_id() const {
        return data != SEPARATOR_SYGIL_ && (data & OBSERVABLE_BIT_);
    }
    bool is_separator() const {
        return data == SEPARATOR_SYGIL_;
    }
    bool is_relative_detector_id() const {
        return data != SEPARATOR_SYGIL_ && !(data & OBSERVABLE_BIT_);
    }
    bool operator==(const DemTarget& o) const {
        return data == o.data;
    }
    bool operator!=(const DemTarget& o) const {
        return data != o.data;
    }
    bool operator<(const DemTarget& o) const {
        return data < o.data;
    }
};

enum class DemInstructionType : uint8_t {
    DEM_ERROR,
    DEM_SHIFT_DETECTORS,
    DEM_DETECTOR,
    DEM_LOGICAL_OBSERVABLE,
    DEM_REPEAT_BLOCK,
};

struct DemInstruction {
    std::vector<double> arg_data;
    std::vector<DemTarget> target_data;
    std::string_view tag;
    DemInstructionType type = DemInstructionType::DEM_ERROR;
};

struct DetectorErrorModel;

namespace shim {
struct Inst {
    DemInstruction inst;
    std::string tag;
    uint64_t rep_count = 0;
    std::shared_ptr<DetectorErrorModel> body;
};
}  // namespace shim

struct DetectorErrorModel {
    std::vector<shim::Inst> instructions;

    DetectorErrorModel() = default;
    explicit DetectorErrorModel(std::string_view text) {
        append_from_text(text);
    }
    explicit DetectorErrorModel(const char* text) : DetectorErrorModel(std::string_view(text)) {
    }
    explicit DetectorErrorModel(const std::string& text) : DetectorErrorModel(std::string_view(text)) {
    }

    static DetectorErrorModel from_file(FILE* file) {
        std::string s;
        char buf[4096];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, file)) > 0)
            s.append(buf, n);
        return DetectorErrorModel(std::string_view(s));
    }

    void append_from_text(std::string_view text) {
        size_t pos = 0;
        parse_block(text, pos, false);
    }

    void append_logical_observable_instruction(DemTarget target, std::string_view tag) {
        shim::Inst i;
        i.inst.type = DemInstructionType::DEM_LOGICAL_OBSERVABLE;
        i.inst.target_data.push_back(target);
        i.tag = std::string(tag);
        instructions.push_back(std::move(i));
    }
    void append_detector_instruction(const std::vector<double>& args, DemTarget target, std::string_view tag) {
        shim::Inst i;
        i.inst.type = DemInstructionType::DEM_DETECTOR;
        i.inst.arg_data = args;
        i.inst.target_data.push_back(target);
        i.tag = std::string(tag);
        instructions.push_back(std::move(i));
    }
    void append_error_instruction(double p, const std::vector<DemTarget>& targets, std::string_view tag) {
        shim::Inst i;
        i.inst.type = DemInstructionType::DEM_ERROR;
        i.inst.arg_data.push_back(p);
        i.inst.target_data = targets;
        i.tag = std::string(tag);
        instructions.push_back(std::move(i));
    }

    DetectorErrorModel flattened() const {
        DetectorErrorModel out;
        iter_flatten_error_instructions([&](const DemInstruction& e) {
            shim::Inst in;
            in.inst = e;
            out.instructions.push_back(in);
        });
        return out;
    }
    template <typename F>
    void iter_flatten_error_instructions(const F& callback) const {
        uint64_t shift = 0;
        flatten(shift, callback);
    }

    uint64_t count_detectors() const {
        uint64_t shift = 0, mx = 0;
        count(shift, mx, nullptr);
        return mx;
    }
    uint64_t count_observables() const {
        uint64_t shift = 0, mx = 0, obs = 0;
        count(shift, mx, &obs);
        return obs;
    }
    uint64_t count_errors() const {
        uint64_t n = 0;
        iter_flatten_error_instructions([&](const DemInstruction&) {
            n++;
        });
        return n;
    }
    std::map<uint64_t, std::vector<double>> get_detector_coordinates(const std::set<uint64_t>& included) const {
        std::map<uint64_t, std::vector<double>> out;
        uint64_t shift = 0;
        std::vector<double> cs;
        coords(shift, cs, out);
        for (auto it = out.begin(); it != out.end();) {
            if (!included.count(it->first))
                it = out.erase(it);
            else
                ++it;
        }
        for (auto d : included)
            if (!out.count(d))
                out[d] = {};
        return out;
    }

   private:
    static void skip_ws(std::string_view t, size_t& p, bool newlines) {
        while (p < t.size()) {
            if (t[p] == '#') {
                while (p < t.size() && t[p] != '\n')
                    p++;
            } else if (t[p] == ' ' || t[p] == '\t' || t[p] == '\r' || (newlines && t[p] == '\n')) {
                p++;
            } else {
                break;
            }
        }
    }
    static uint64_t read_u64(std::string_view t, size_t& p) {
        if (p >= t.size() || !isdigit((unsigned char)t[p]))
            throw std::invalid_argument("Expected a number in detector error model.");
        uint64_t v = 0;
        while (p < t.size() && isdigit((unsigned char)t[p]))
            v = v * 10 + (t[p++] - '0');
        return v;
    }
    void parse_block(std::string_view t, size_t& p, bool nested) {
        while (true) {
            skip_ws(t, p, true);
            if (p >= t.size()) {
                if (nested)
                    throw std::invalid_argument("Unterminated block.");
                return;
            }
            if (t[p] == '}') {
                if (!nested)
                    throw std::invalid_argument("Uninitiated block.");
                p++;
                return;
            }
            std::string name;
            while (p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_'))
                name.push_back((char)tolower((unsigned char)t[p++]));
            shim::Inst in;
            if (name == "error")
                in.inst.type = DemInstructionType::DEM_ERROR;
            else if (name == "detector")
                in.inst.type = DemInstructionType::DEM_DETECTOR;
            else if (name == "logical_observable")
                in.inst.type = DemInstructionType::DEM_LOGICAL_OBSERVABLE;
            else if (name == "shift_detectors")
                in.inst.type = DemInstructionType::DEM_SHIFT_DETECTORS;
            else if (name == "repeat")
                in.inst.type = DemInstructionType::DEM_REPEAT_BLOCK;
            else
                throw std::invalid_argument("Unrecognized instruction name: " + name);
            if (p < t.size() && t[p] == '[') {
                p++;
                while (p < t.size() && t[p] != ']')
                    in.tag.push_back(t[p++]);
                if (p >= t.size())
                    throw std::invalid_argument("Unterminated tag.");
                p++;
            }
            if (p < t.size() && t[p] == '(') {
                p++;
                while (true) {
                    while (p < t.size() && (t[p] == ' ' || t[p] == ','))
                        p++;
                    if (p < t.size() && t[p] == ')') {
                        p++;
                        break;
                    }
                    std::string num;
                    while (p < t.size() && t[p] != ',' && t[p] != ')' && t[p] != ' ')
                        num.push_back(t[p++]);
                    char* end;
                    double d = strtod(num.c_str(), &end);
                    if (num.empty() || *end)
                        throw std::invalid_argument("Bad argument: " + num);
                    in.inst.arg_data.push_back(d);
                }
            }
            if (in.inst.type == DemInstructionType::DEM_REPEAT_BLOCK) {
                skip_ws(t, p, false);
                in.rep_count = read_u64(t, p);
                skip_ws(t, p, true);
                if (p >= t.size() || t[p] != '{')
                    throw std::invalid_argument("Missing '{' after repeat.");
                p++;
                in.body = std::make_shared<DetectorErrorModel>();
                in.body->parse_block(t, p, true);
                instructions.push_back(std::move(in));
                continue;
            }
            while (true) {
                skip_ws(t, p, false);
                if (p >= t.size() || t[p] == '\n' || t[p] == '}')
                    break;
                char c = t[p];
                if (in.inst.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
                    in.inst.target_data.push_back(DemTarget{read_u64(t, p)});
                } else if (c == 'D' || c == 'd') {
                    p++;
                    in.inst.target_data.push_back(DemTarget::relative_detector_id(read_u64(t, p)));
                } else if (c == 'L' || c == 'l') {
                    p++;
                    in.inst.target_data.push_back(DemTarget::observable_id(read_u64(t, p)));
                } else if (c == '^') {
                    p++;
                    in.inst.target_data.push_back(DemTarget::separator());
                } else {
                    throw std::invalid_argument(std::string("Unrecognized target character: ") + c);
                }
            }
            if (in.inst.type == DemInstructionType::DEM_ERROR) {
                if (in.inst.arg_data.size() != 1)
                    throw std::invalid_argument("'error' instruction takes 1 argument.");
                double q = in.inst.arg_data[0];
                if (!(q >= 0 && q <= 1))
                    throw std::invalid_argument("'error' instruction argument must be a probability (0 to 1).");
                auto& td = in.inst.target_data;
                for (size_t k = 0; k < td.size(); k++)
                    if (td[k].is_separator() && (k == 0 || k + 1 == td.size() || td[k - 1].is_separator()))
                        throw std::invalid_argument("Misplaced separator in 'error' instruction.");
            }
            instructions.push_back(std::move(in));
        }
    }
    template <typename F>
    void flatten(uint64_t& shift, const F& callback) const {
        for (auto& in : instructions) {
            switch (in.inst.type) {
                case DemInstructionType::DEM_ERROR: {
                    DemInstruction copy = in.inst;
                    for (auto& x : copy.target_data)
                        if (x.is_relative_detector_id())
                            x.data += shift;
                    copy.tag = in.tag;
                    callback(copy);
                    break;
                }
                case DemInstructionType::DEM_SHIFT_DETECTORS:
                    shift += in.inst.target_data.empty() ? 0 : in.inst.target_data[0].data;
                    break;
                case DemInstructionType::DEM_REPEAT_BLOCK:
                    for (uint64_t k = 0; k < in.rep_count; k++)
                        in.body->flatten(shift, callback);
                    break;
                default:
                    break;
            }
        }
    }
    void count(uint64_t& shift, uint64_t& mx, uint64_t* obs) const {
        for (auto& in : instructions) {
            if (in.inst.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
                shift += in.inst.target_data.empty() ? 0 : in.inst.target_data[0].data;
            } else if (in.inst.type == DemInstructionType::DEM_REPEAT_BLOCK) {
                for (uint64_t k = 0; k < in.rep_count; k++)
                    in.body->count(shift, mx, obs);
            } else {
                for (auto& x : in.inst.target_data) {
                    if (x.is_relative_detector_id())
                        mx = std::max(mx, x.data + shift + 1);
                    else if (x.is_observable_id() && obs)
                        *obs = std::max(*obs, x.raw_id() + 1);
                }
            }
        }
    }
    void coords(uint64_t& shift, std::vector<double>& cs, std::map<uint64_t, std::vector<double>>& out) const {
        for (auto& in : instructions) {
            if (in.inst.type == DemInstructionType::DEM_SHIFT_DETECTORS) {
                shift += in.inst.target_data.empty() ? 0 : in.inst.target_data[0].data;
                for (size_t k = 0; k < in.inst.arg_data.size(); k++) {
                    if (k >= cs.size())
                        cs.push_back(0);
                    cs[k] += in.inst.arg_data[k];
                }
            } else if (in.inst.type == DemInstructionType::DEM_REPEAT_BLOCK) {
                for (uint64_t k = 0; k < in.rep_count; k++)
                    in.body->coords(shift, cs, out);
            } else if (in.inst.type == DemInstructionType::DEM_DETECTOR) {
                std::vector<double> c = in.inst.arg_data;
                for (size_t k = 0; k < c.size() && k < cs.size(); k++)
                    c[k] += cs[k];
                for (auto& x : in.inst.target_data)
                    out[x.data + shift] = c;
            }
        }
    }
};

// In this stand-in a "circuit" file simply holds the detector error model text of the circuit, as it is with errors
// decomposed; without decomposition the separators are missing.
struct Circuit {
    std::string text;
    Circuit() = default;
    explicit Circuit(const char* t) : text(t) {
    }
    static Circuit from_file(FILE* file) {
        Circuit c;
        char buf[4096];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, file)) > 0)
            c.text.append(buf, n);
        return c;
    }
};
struct ErrorAnalyzer {
    template <typename... Args>
    static DetectorErrorModel circuit_to_detector_error_model(const Circuit& c, bool decompose_errors, Args&&...) {
        std::string t = c.text;
        if (!decompose_errors)
            for (auto& x : t)
                if (x == '^')
                    x = ' ';
        return DetectorErrorModel(std::string_view(t));
    }
};

// ---------------------------------------------------------------- sample formats
enum class SampleFormat : uint8_t {
    SAMPLE_FORMAT_01,
    SAMPLE_FORMAT_B8,
    SAMPLE_FORMAT_PTB64,
    SAMPLE_FORMAT_HITS,
    SAMPLE_FORMAT_R8,
    SAMPLE_FORMAT_DETS,
};
struct FileFormatData {
    const char* name = "";
    SampleFormat id = SampleFormat::SAMPLE_FORMAT_01;
};
inline const std::map<std::string, FileFormatData>& format_name_to_enum_map() {
    static const std::map<std::string, FileFormatData> m{
        {"01", {"01", SampleFormat::SAMPLE_FORMAT_01}},
        {"b8", {"b8", SampleFormat::SAMPLE_FORMAT_B8}},
        {"ptb64", {"ptb64", SampleFormat::SAMPLE_FORMAT_PTB64}},
        {"hits", {"hits", SampleFormat::SAMPLE_FORMAT_HITS}},
        {"r8", {"r8", SampleFormat::SAMPLE_FORMAT_R8}},
        {"dets", {"dets", SampleFormat::SAMPLE_FORMAT_DETS}},
    };
    return m;
}

namespace shim {
struct Bits {
    std::vector<uint64_t> w;
    size_t num_bits_padded() const {
        return w.size() * 64;
    }
    void clear() {
        std::fill(w.begin(), w.end(), 0);
    }
    void ensure(size_t n) {
        if (w.size() * 64 < n)
            w.resize((n + 63) / 64, 0);
    }
    struct ref {
        uint64_t& x;
        size_t k;
        operator bool() const {
            return (x >> k) & 1;
        }
        ref& operator=(bool b) {
            x = (x & ~(uint64_t{1} << k)) | ((uint64_t)b << k);
            return *this;
        }
        ref& operator^=(bool b) {
            x ^= (uint64_t)b << k;
            return *this;
        }
        ref& operator|=(bool b) {
            x |= (uint64_t)b << k;
            return *this;
        }
    };
    ref operator[](size_t k) {
        return {w.at(k / 64), k % 64};
    }
    bool operator[](size_t k) const {
        return (w.at(k / 64) >> (k % 64)) & 1;
    }
    bool operator==(const Bits& o) const {
        return w == o.w;
    }
    bool operator!=(const Bits& o) const {
        return w != o.w;
    }
    Bits& operator^=(const Bits& o) {
        ensure(o.w.size() * 64);
        for (size_t k = 0; k < o.w.size(); k++)
            w[k] ^= o.w[k];
        return *this;
    }
    Bits& operator|=(const Bits& o) {
        ensure(o.w.size() * 64);
        for (size_t k = 0; k < o.w.size(); k++)
            w[k] |= o.w[k];
        return *this;
    }
    Bits& operator&=(const Bits& o) {
        for (size_t k = 0; k < w.size(); k++)
            w[k] &= k < o.w.size() ? o.w[k] : 0;
        return *this;
    }
    bool not_zero() const {
        for (auto x : w)
            if (x)
                return true;
        return false;
    }
    size_t popcnt() const {
        size_t n = 0;
        for (auto x : w)
            n += __builtin_popcountll(x);
        return n;
    }
    uint64_t as_u64() const {
        return w.empty() ? 0 : w[0];
    }
    size_t num_u64_padded() const {
        return w.size();
    }
    size_t num_u8_padded() const {
        return w.size() * 8;
    }
};
}  // namespace shim

struct SparseShot {
    std::vector<uint64_t> hits;
    shim::Bits obs_mask;
    void clear() {
        hits.clear();
        obs_mask.clear();
    }
    uint64_t obs_mask_as_u64() const {
        return obs_mask.w.empty() ? 0 : obs_mask.w[0];
    }
    bool operator==(const SparseShot& o) const {
        return hits == o.hits && obs_mask == o.obs_mask;
    }
};

template <size_t W>
struct MeasureRecordReader {
    FILE* in;
    SampleFormat fmt;
    size_t num_measurements, num_detectors, num_observables;
    static std::unique_ptr<MeasureRecordReader<W>> make(
        FILE* in, SampleFormat fmt, size_t num_measurements, size_t num_detectors, size_t num_observables) {
        if (fmt == SampleFormat::SAMPLE_FORMAT_PTB64)
            throw std::invalid_argument("SAMPLE_FORMAT_PTB64 incompatible with SHOTS");
        auto r = std::make_unique<MeasureRecordReader<W>>();
        *r = {in, fmt, num_measurements, num_detectors, num_observables};
        return r;
    }
    size_t bits_per_record() const {
        return num_measurements + num_detectors + num_observables;
    }
    bool start_and_read_entire_record(SparseShot& shot) {
        shot.obs_mask.ensure(num_observables);
        std::vector<uint64_t> h;
        if (!read(h))
            return false;
        size_t nb = num_measurements + num_detectors;
        for (auto x : h) {
            if (x >= nb + num_observables)
                throw std::invalid_argument("Index too large in sample data.");
            if (x >= nb)
                shot.obs_mask[x - nb] ^= true;
            else
                shot.hits.push_back(x);
        }
        return true;
    }

   private:
    bool read(std::vector<uint64_t>& h) {
        size_t n = bits_per_record();
        switch (fmt) {
            case SampleFormat::SAMPLE_FORMAT_01: {
                int c = getc(in);
                if (c == EOF)
                    return false;
                for (size_t k = 0; k < n; k++) {
                    if (c == '1')
                        h.push_back(k);
                    else if (c != '0')
                        throw std::invalid_argument("01 data didn't match expected number of bits per record.");
                    c = getc(in);
                }
                if (c == '\r')
                    c = getc(in);
                if (c != '\n' && c != EOF)
                    throw std::invalid_argument("01 data didn't end with a newline after the expected data length.");
                return true;
            }
            case SampleFormat::SAMPLE_FORMAT_B8: {
                size_t nb = (n + 7) / 8;
                if (n == 0)
                    return false;
                for (size_t k = 0; k < nb; k++) {
                    int c = getc(in);
                    if (c == EOF) {
                        if (k == 0)
                            return false;
                        throw std::invalid_argument("b8 data ended in middle of record.");
                    }
                    for (size_t j = 0; j < 8; j++)
                        if ((c >> j) & 1) {
                            if (k * 8 + j >= n)
                                throw std::invalid_argument("b8 padding bit set.");
                            h.push_back(k * 8 + j);
                        }
                }
                return true;
            }
            case SampleFormat::SAMPLE_FORMAT_HITS: {
                bool first = true;
                while (true) {
                    int c = getc(in);
                    if (c == EOF && first)
                        return false;
                    if (c == '\r')
                        c = getc(in);
                    if (c == '\n' && first)
                        return true;
                    uint64_t v = 0;
                    if (!isdigit(c))
                        throw std::invalid_argument("hits data bad");
                    while (isdigit(c)) {
                        v = v * 10 + (c - '0');
                        c = getc(in);
                    }
                    h.push_back(v);
                    first = false;
                    if (c == '\r')
                        c = getc(in);
                    if (c == '\n' || c == EOF)
                        return true;
                    if (c != ',')
                        throw std::invalid_argument("hits data bad");
                }
            }
            case SampleFormat::SAMPLE_FORMAT_R8: {
                size_t pos = 0;
                bool first = true;
                while (true) {
                    int c = getc(in);
                    if (c == EOF) {
                        if (first)
                            return false;
                        throw std::invalid_argument("r8 data ended in the middle of a record.");
                    }
                    first = false;
                    pos += c;
                    if (c < 255) {
                        if (pos < n) {
                            h.push_back(pos);
                            pos++;
                        } else if (pos == n) {
                            return true;
                        } else {
                            throw std::invalid_argument("r8 data jumped past expected end of record.");
                        }
                    }
                }
            }
            case SampleFormat::SAMPLE_FORMAT_DETS: {
                int c;
                do {
                    c = getc(in);
                } while (c == '\n' || c == ' ' || c == '\r' || c == '\t');
                if (c == EOF)
                    return false;
                const char* kw = "shot";
                for (int k = 0; k < 4; k++) {
                    if (c != kw[k])
                        throw std::invalid_argument("DETS data didn't start with 'shot'");
                    c = getc(in);
                }
                while (true) {
                    while (c == ' ' || c == '\r')
                        c = getc(in);
                    if (c == '\n' || c == EOF)
                        return true;
                    char t = (char)c;
                    c = getc(in);
                    uint64_t v = 0;
                    if (!isdigit(c))
                        throw std::invalid_argument("dets data bad");
                    while (isdigit(c)) {
                        v = v * 10 + (c - '0');
                        c = getc(in);
                    }
                    size_t off, lim;
                    if (t == 'M') {
                        off = 0;
                        lim = num_measurements;
                    } else if (t == 'D') {
                        off = num_measurements;
                        lim = num_detectors;
                    } else if (t == 'L') {
                        off = num_measurements + num_detectors;
                        lim = num_observables;
                    } else {
                        throw std::invalid_argument("Unrecognized DETS prefix");
                    }
                    if (v >= lim)
                        throw std::invalid_argument("DETS index out of range");
                    h.push_back(off + v);
                }
            }
            default:
                throw std::invalid_argument("format not supported");
        }
    }
};

struct MeasureRecordWriter {
    FILE* out;
    SampleFormat fmt;
    char type = 'M';
    std::vector<bool> bits;
    static std::unique_ptr<MeasureRecordWriter> make(FILE* out, SampleFormat fmt) {
        if (fmt == SampleFormat::SAMPLE_FORMAT_PTB64)
            throw std::invalid_argument("SAMPLE_FORMAT_PTB64 incompatible with SINGLE_SHOT writing");
        auto w = std::make_unique<MeasureRecordWriter>();
        w->out = out;
        w->fmt = fmt;
        return w;
    }
    void begin_result_type(char t) {
        type = t;
    }
    void write_bits(const uint8_t* data, size_t num_bits) {
        for (size_t k = 0; k < num_bits; k++)
            write_bit((data[k / 8] >> (k % 8)) & 1);
    }
    template <typename Bytes>
    void write_bytes(const Bytes& data) {
        for (uint8_t x : data)
            write_bits(&x, 8);
    }
    void write_bit(bool b) {
        bits.push_back(b);
    }
    void write_end() {
        switch (fmt) {
            case SampleFormat::SAMPLE_FORMAT_01:
                for (bool b : bits)
                    putc('0' + b, out);
                putc('\n', out);
                break;
            case SampleFormat::SAMPLE_FORMAT_B8:
                for (size_t k = 0; k < bits.size(); k += 8) {
                    int v = 0;
                    for (size_t j = 0; j < 8 && k + j < bits.size(); j++)
                        v |= bits[k + j] << j;
                    putc(v, out);
                }
                break;
            case SampleFormat::SAMPLE_FORMAT_HITS: {
                bool first = true;
                for (size_t k = 0; k < bits.size(); k++)
                    if (bits[k]) {
                        if (!first)
                            putc(',', out);
                        first = false;
                        fprintf(out, "%zu", k);
                    }
                putc('\n', out);
                break;
            }
            case SampleFormat::SAMPLE_FORMAT_R8: {
                size_t run = 0;
                auto flush = [&]() {
                    while (run >= 255) {
                        putc(255, out);
                        run -= 255;
                    }
                    putc((int)run, out);
                    run = 0;
                };
                for (bool b : bits) {
                    if (b)
                        flush();
                    else
                        run++;
                }
                flush();
                break;
            }
            case SampleFormat::SAMPLE_FORMAT_DETS:
                fprintf(out, "shot");
                for (size_t k = 0; k < bits.size(); k++)
                    if (bits[k])
                        fprintf(out, " %c%zu", type, k);
                putc('\n', out);
                break;
            default:
                break;
        }
        bits.clear();
    }
};

// ---------------------------------------------------------------- command line arguments
inline const char* find_argument(const char* name, int argc, const char** argv) {
    size_t n = strlen(name);
    for (int i = 1; i < argc; i++) {
        if (strncmp(argv[i], name, n) != 0)
            continue;
        if (argv[i][n] == '\0') {
            if (i == argc - 1 || (argv[i + 1][0] == '-' && !isdigit((unsigned char)argv[i + 1][1])))
                return "";
            return argv[i + 1];
        }
        if (argv[i][n] == '=')
            return argv[i] + n + 1;
    }
    return nullptr;
}
inline const char* require_find_argument(const char* name, int argc, const char** argv) {
    const char* r = find_argument(name, argc, argv);
    if (!r)
        throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'");
    return r;
}
inline void check_for_unknown_arguments(
    const std::vector<const char*>& known, const std::vector<const char*>&, const char* for_mode, int argc,
    const char** argv) {
    for (int i = 1; i < argc; i++) {
        if (for_mode && i == 1 && strcmp(argv[i], for_mode) == 0)
            continue;
        std::string a = argv[i];
        auto eq = a.find('=');
        std::string nm = a.substr(0, eq);
        bool ok = false;
        for (auto k : known)
            if (nm == k)
                ok = true;
        if (!ok)
            throw std::invalid_argument("Unrecognized command line argument " + a);
        if (eq == std::string::npos && i + 1 < argc &&
            !(argv[i + 1][0] == '-' && !isdigit((unsigned char)argv[i + 1][1])))
            i++;
    }
}
inline bool find_bool_argument(const char* name, int argc, const char** argv) {
    const char* t = find_argument(name, argc, argv);
    if (!t || strcmp(t, "0") == 0)
        return false;
    if (strcmp(t, "") == 0 || strcmp(t, "1") == 0)
        return true;
    throw std::invalid_argument(std::string("Got non-boolean value for flag ") + name);
}
inline int64_t find_int64_argument(
    const char* name, int64_t def, int64_t mn, int64_t mx, int argc, const char** argv) {
    const char* t = find_argument(name, argc, argv);
    if (!t || !*t) {
        if (def < mn || def > mx)
            throw std::invalid_argument(std::string("Must specify a value for int flag '") + name + "'.");
        return def;
    }
    char* e;
    int64_t v = strtoll(t, &e, 10);
    if (*e || v < mn || v > mx)
        throw std::invalid_argument(std::string("Bad integer value for flag '") + name + "'.");
    return v;
}
inline float find_float_argument(const char* name, float def, float mn, float mx, int argc, const char** argv) {
    const char* t = find_argument(name, argc, argv);
    if (!t) {
        if (def < mn || def > mx)
            throw std::invalid_argument(std::string("Must specify a value for float flag '") + name + "'.");
        return def;
    }
    char* e;
    float v = strtof(t, &e);
    if (*e || !(v >= mn && v <= mx))
        throw std::invalid_argument(std::string("Bad float value for flag '") + name + "'.");
    return v;
}
template <typename T>
const T& find_enum_argument(
    const char* name, const char* default_key, const std::map<std::string, T>& values, int argc, const char** argv) {
    const char* t = find_argument(name, argc, argv);
    if (!t) {
        if (!default_key)
            throw std::invalid_argument(std::string("Must specify a value for enum flag '") + name + "'.");
        return values.at(default_key);
    }
    auto it = values.find(t);
    if (it == values.end())
        throw std::invalid_argument(std::string("Unrecognized value '") + t + "' for enum flag '" + name + "'.");
    return it->second;
}
inline FILE* find_open_file_argument(
    const char* name, FILE* default_file, const char* mode, int argc, const char** argv) {
    const char* path = find_argument(name, argc, argv);
    if (!path) {
        if (!default_file)
            throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'");
        return default_file;
    }
    if (!*path)
        throw std::invalid_argument(std::string("Command line argument '") + name + "' can't be empty.");
    FILE* f = fopen(path, mode);
    if (!f)
        throw std::invalid_argument(std::string("Failed to open '") + path + "'");
    return f;
}

}  // namespace stim

#endif
