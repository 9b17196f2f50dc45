// Offline stand-in for the public API of vnx-base, used only so that clang can type-check
// madMAx43v3r/mmx-node in this sandbox (submodules are not available here).
#ifndef VNX_SHIM_CORE_H_
#define VNX_SHIM_CORE_H_

#include <algorithm>
#include <array>
#include <atomic>
#include <cctype>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <filesystem>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>

#define VNX_MAX_BYTE_CODE_SIZE 4096

namespace vnx {

enum code_e : uint16_t {
	CODE_NULL = 0, CODE_UINT8 = 1, CODE_UINT16 = 2, CODE_UINT32 = 3, CODE_UINT64 = 4,
	CODE_INT8 = 5, CODE_INT16 = 6, CODE_INT32 = 7, CODE_INT64 = 8, CODE_FLOAT = 9, CODE_DOUBLE = 10,
	CODE_ARRAY = 11, CODE_LIST = 12, CODE_MAP = 13, CODE_TYPE_CODE = 14, CODE_ANY = 15, CODE_VALUE = 16, CODE_DYNAMIC = 17,
	CODE_STRUCT = 19, CODE_MATRIX = 21, CODE_TUPLE = 23, CODE_OBJECT = 24, CODE_BOOL = 31, CODE_STRING = 32, CODE_OPTIONAL = 33,
	CODE_ALT_NULL = 0x1000, CODE_ALT_UINT8 = 0x1000 | 1, CODE_ALT_UINT16, CODE_ALT_UINT32, CODE_ALT_UINT64,
	CODE_ALT_INT8, CODE_ALT_INT16, CODE_ALT_INT32, CODE_ALT_INT64, CODE_ALT_FLOAT, CODE_ALT_DOUBLE,
	CODE_ALT_ARRAY, CODE_ALT_LIST, CODE_ALT_MAP, CODE_ALT_TYPE_CODE, CODE_ALT_ANY, CODE_ALT_VALUE, CODE_ALT_DYNAMIC,
	CODE_ALT_STRUCT = 0x1000 | 19, CODE_ALT_MATRIX = 0x1000 | 21, CODE_ALT_TUPLE = 0x1000 | 23, CODE_ALT_OBJECT = 0x1000 | 24,
	CODE_ALT_BOOL = 0x1000 | 31, CODE_ALT_STRING = 0x1000 | 32, CODE_ALT_OPTIONAL = 0x1000 | 33
};

typedef float float32_t;
typedef double float64_t;

typedef bool bool_t;

class Value; class Object; class Variant; class Visitor; class TypeInput; class TypeOutput; struct TypeCode; struct TypeField;
class Buffer; class Memory; class Exception; class ModuleInfo; class Session; class Sample; class Pipe; class Endpoint;

inline uint16_t flip_bytes(uint16_t v) { return uint16_t((v << 8) | (v >> 8)); }
inline uint32_t flip_bytes(uint32_t v) { return __builtin_bswap32(v); }
inline uint64_t flip_bytes(uint64_t v) { return __builtin_bswap64(v); }
inline int64_t flip_bytes(int64_t v) { return int64_t(__builtin_bswap64(uint64_t(v))); }
template<typename T> T to_big_endian(const T& v) { return T(flip_bytes(v)); }
template<typename T> T from_big_endian(const T& v) { return T(flip_bytes(v)); }
template<typename T> T to_little_endian(const T& v) { return v; }
template<typename T> T from_little_endian(const T& v) { return v; }

template<typename T>
class optional {
public:
	optional() = default;
	optional(const std::nullptr_t&) {}
	optional(const optional& o) : p(o.p ? std::make_unique<T>(*o.p) : nullptr) {}
	optional(optional&& o) = default;
	template<typename S, typename = std::enable_if_t<std::is_convertible<S, T>::value && !std::is_same<std::decay_t<S>, optional>::value>>
	optional(const S& v) : p(std::make_unique<T>(v)) {}
	optional(const T& v) : p(std::make_unique<T>(v)) {}
	optional(const T* v) : p(v ? std::make_unique<T>(*v) : nullptr) {}
	optional& operator=(const optional& o) { p = o.p ? std::make_unique<T>(*o.p) : nullptr; return *this; }
	optional& operator=(optional&& o) = default;
	optional& operator=(const std::nullptr_t&) { p = nullptr; return *this; }
	template<typename S, typename = std::enable_if_t<std::is_convertible<S, T>::value && !std::is_same<std::decay_t<S>, optional>::value && !std::is_same<std::decay_t<S>, std::nullptr_t>::value>>
	optional& operator=(const S& v) { p = std::make_unique<T>(v); return *this; }
	operator bool() const { return bool(p); }
	T& operator*() { return *p; }
	const T& operator*() const { return *p; }
	T* operator->() { return p.get(); }
	const T* operator->() const { return p.get(); }
	T* get() { return p.get(); }
	const T* get() const { return p.get(); }
	void reset() { p = nullptr; }
	bool operator==(const optional& o) const { return (!p && !o.p) || (p && o.p && *p == *o.p); }
	bool operator!=(const optional& o) const { return !(*this == o); }
	bool operator==(const T& v) const { return p && *p == v; }
	bool operator!=(const T& v) const { return !(p && *p == v); }
	bool operator<(const optional& o) const { return p && o.p ? *p < *o.p : (!p && o.p); }
private:
	std::unique_ptr<T> p;
};

class Hash64 {
public:
	uint64_t value = 0;
	constexpr Hash64() = default;
	constexpr Hash64(uint64_t v) : value(v) {}
	explicit Hash64(const std::string& s) : value(std::hash<std::string>{}(s)) {}
	explicit Hash64(const char* s) : Hash64(std::string(s)) {}
	Hash64(uint64_t a, uint64_t b) : value(a * 1099511628211ull ^ b) {}
	Hash64(const void* data, size_t n) : value(std::hash<std::string>{}(std::string((const char*)data, n))) {}
	constexpr operator uint64_t() const { return value; }
	std::string to_hex_string() const { std::stringstream s; s << std::hex << value; return s.str(); }
	std::string to_string() const { return to_hex_string(); }
	static Hash64 rand();
	static Hash64 create() { return rand(); }
};
inline std::ostream& operator<<(std::ostream& o, const Hash64& h) { return o << h.to_hex_string(); }

struct request_id_t {
	Hash64 src_mac; uint64_t id = 0; std::shared_ptr<const Session> session; bool operator==(const request_id_t& o) const { return src_mac == o.src_mac && id == o.id; }
};

struct TypeField {
	bool is_extended = false;
	size_t data_size = 0;
	std::string name, value;
	std::vector<uint16_t> code;
	int native_index = -1;
	size_t offset = 0;
	size_t get_offset() const { return offset; }
	bool is_same(const TypeField&) const { return true; }
};

struct TypeCode {
	std::string name;
	Hash64 type_hash, code_hash;
	bool is_native = false, is_class = false, is_equivalent = true, is_enum = false, is_method = false, is_async = false, is_const = false, is_return = false, is_void = false, is_matched = true;
	bool no_session = false;
	std::string permission_name; Hash64 permission_hash; Hash64 permission;
	size_t native_size = 0;
	std::vector<const TypeCode*> parents, depends, methods;
	const TypeCode* super = nullptr;
	const TypeCode* return_type = nullptr;
	std::function<std::shared_ptr<Value>()> create_value;
	std::vector<TypeField> fields;
	std::map<uint32_t, std::string> enum_map;
	size_t total_field_size = 0;
	std::vector<const TypeField*> field_map, ext_fields;
	void build() {
		size_t off = 0;
		field_map.assign(fields.size(), nullptr);
		for(size_t i = 0; i < fields.size(); ++i) {
			auto& f = fields[i];
			f.native_index = i;
			if(!f.is_extended) { f.offset = off; off += f.data_size; field_map[i] = &f; }
			else ext_fields.push_back(&f);
		}
		total_field_size = off;
		if(!parents.empty()) super = parents[0];
	}
	std::string get_permission() const { return permission_name; }
	TypeField* get_field(const std::string& n) { for(auto& f : fields) if(f.name == n) return &f; return nullptr; }
};

const TypeCode* get_type_code(Hash64 hash);
const TypeCode* register_type_code(std::shared_ptr<TypeCode> code);
std::vector<const TypeCode*> get_all_type_codes();

class InputStream { public: virtual ~InputStream() {} virtual size_t read(void* buf, size_t len) = 0; };
class OutputStream { public: virtual ~OutputStream() {} virtual void write(const void* buf, size_t len) = 0; };

class VectorOutputStream : public OutputStream {
public:
	VectorOutputStream(std::vector<uint8_t>* v) : vec(v) {}
	void write(const void* buf, size_t len) override { auto* p = (const uint8_t*)buf; vec->insert(vec->end(), p, p + len); }
	size_t get_output_pos() const { return vec->size(); }
	std::vector<uint8_t>* vec;
};
class PointerInputStream : public InputStream {
public:
	PointerInputStream(const void* d, size_t n) : data((const char*)d), size(n) {}
	size_t read(void* buf, size_t len) override { len = std::min(len, size - pos); ::memcpy(buf, data + pos, len); pos += len; return len; }
	size_t get_input_pos() const { return pos; }
	const char* data; size_t size, pos = 0;
};
class VectorInputStream : public PointerInputStream { public: VectorInputStream(const std::vector<uint8_t>* v) : PointerInputStream(v->data(), v->size()) {} };

class Memory {
public:
	Memory() = default;
	std::string data;
	size_t get_size() const { return data.size(); }
	size_t size() const { return data.size(); }
	void add(const void* p, size_t n) { data.append((const char*)p, n); }
	void clear() { data.clear(); }
	std::string as_string() const { return data; }
	operator bool() const { return !data.empty(); }
};
class MemoryOutputStream : public OutputStream { public: MemoryOutputStream(Memory* m) : mem(m) {} void write(const void* b, size_t n) override { mem->add(b, n); } Memory* mem; };
class MemoryInputStream : public PointerInputStream { public: MemoryInputStream(const Memory* m) : PointerInputStream(m->data.data(), m->data.size()) {} };

class FileInputStream : public InputStream { public: FILE* f; explicit FileInputStream(FILE* f) : f(f) {} size_t read(void* b, size_t n) override { return ::fread(b, 1, n, f); } };
class FileOutputStream : public OutputStream { public: FILE* f; explicit FileOutputStream(FILE* f) : f(f) {} void write(const void* b, size_t n) override { if(::fwrite(b, 1, n, f) != n) throw std::runtime_error("fwrite() failed"); } };
class FileSectionInputStream : public InputStream {
public:
	FileSectionInputStream(FILE* f, int64_t off, int64_t len = -1, size_t = 0) : fd(::fileno(f)), off(off), len(len) {}
	size_t read(void* b, size_t n) override {
		if(len >= 0) n = std::min<int64_t>(n, len - pos);
		if(!n) return 0;
		const auto r = ::pread(fd, b, n, off + pos);
		if(r < 0) throw std::runtime_error("pread() failed");
		pos += r; return r;
	}
	int fd; int64_t off, len, pos = 0;
};

class InputBuffer {
public:
	InputStream* stream; size_t total = 0;
	explicit InputBuffer(InputStream* s = nullptr) : stream(s) {}
	void read_raw(void* p, size_t n) {
		auto* d = (char*)p;
		while(n) { const auto r = stream->read(d, n); if(!r) throw std::underflow_error("read(): eof"); d += r; n -= r; total += r; }
	}
	void read(void* p, size_t n) { read_raw(p, n); }
	int64_t get_input_pos() const { return total; }
	void reset() { total = 0; }
};
class OutputBuffer {
public:
	OutputStream* stream; int64_t total = 0;
	explicit OutputBuffer(OutputStream* s = nullptr) : stream(s) {}
	virtual ~OutputBuffer() { }
	void flush() { flush_tmp(); }
	void write(const void* p, size_t n) { flush_tmp(); stream->write(p, n); total += n; }
	char* write(size_t n) { flush_tmp(); tmp.assign(n, 0); return tmp.data(); }
	int64_t get_output_pos() const { return total + tmp.size(); }
	const char* get_buffer() const { return tmp.data(); } size_t get_buffer_pos() const { return tmp.size(); }
	void reset() { tmp.clear(); total = 0; }
	void flush_tmp() { if(!tmp.empty()) { auto t = std::move(tmp); tmp.clear(); stream->write(t.data(), t.size()); total += t.size(); } }
	std::vector<char> tmp;
};

class TypeInput : public InputBuffer {
public:
	struct recursion_t { recursion_t(TypeInput&) {} ~recursion_t() {} };
	std::vector<char> buf;
	bool safe_read = false; size_t max_list_size = -1;
	explicit TypeInput(InputStream* s = nullptr) : InputBuffer(s) {}
	const char* read(size_t n) { buf.resize(n + 1); read_raw(buf.data(), n); return buf.data(); }
	void read(void* p, size_t n) { read_raw(p, n); }
	const TypeCode* get_type_code(Hash64 h) { return vnx::get_type_code(h); }
};
class TypeOutput : public OutputBuffer {
public:
	bool disable_type_codes = false;
	explicit TypeOutput(OutputStream* s = nullptr) : OutputBuffer(s) {}
	void write_type_code(const TypeCode*) {}
};

class Visitor {
public:
	bool enable_binary = false;
	virtual ~Visitor() {}
	virtual void visit_null() {}
	virtual void visit(const bool&) {}
	virtual void visit(const uint8_t&) {} virtual void visit(const uint16_t&) {} virtual void visit(const uint32_t&) {} virtual void visit(const uint64_t&) {}
	virtual void visit(const int8_t&) {} virtual void visit(const int16_t&) {} virtual void visit(const int32_t&) {} virtual void visit(const int64_t&) {}
	virtual void visit(const vnx::float32_t&) {} virtual void visit(const vnx::float64_t&) {}
	virtual void visit(const std::string&) {}
	virtual void visit(const uint8_t*, size_t) {}
	virtual void list_begin(size_t) {} virtual void list_element(size_t) {} virtual void list_end(size_t) {}
	virtual void map_begin(size_t) {} virtual void map_key(size_t) {} virtual void map_value(size_t) {} virtual void map_end(size_t) {}
	virtual void type_begin(const TypeCode&) {} virtual void type_end(const TypeCode&) {}
	virtual void type_begin(size_t, const TypeCode*) {} virtual void type_end(size_t, const TypeCode*) {}
	virtual void type_field(const TypeField&, size_t) {}
	virtual void type_field(const std::string&, size_t) {}
	virtual void enum_value(uint32_t, const std::string&) {}
	void type_begin(size_t) {} void type_end(size_t) {}
};

class exception;

class Value {
public:
	virtual ~Value() {}
	static const Hash64 VNX_TYPE_HASH;
	virtual Hash64 get_type_hash() const { return Hash64(); }
	virtual std::string get_type_name() const { return "vnx.Value"; }
	virtual const TypeCode* get_type_code() const { return nullptr; }
	virtual std::shared_ptr<Value> clone() const { return nullptr; }
	virtual bool is_void() const { return false; }
	virtual void read(TypeInput&, const TypeCode*, const uint16_t*) {}
	virtual void write(TypeOutput&, const TypeCode*, const uint16_t*) const {}
	virtual void read(std::istream&) {}
	virtual void write(std::ostream&) const {}
	virtual void accept(Visitor&) const {}
	virtual Object to_object() const;
	virtual void from_object(const Object&) {}
	virtual Variant get_field(const std::string&) const;
	virtual void set_field(const std::string&, const Variant&) {}
	Variant get_field_by_index(uint32_t) const;
	std::string to_string() const { std::stringstream s; write(s); return s.str(); }
	std::shared_ptr<Value> vnx_call(std::shared_ptr<const Value> m) { return vnx_call_switch(m); }
protected:
	virtual std::shared_ptr<Value> vnx_call_switch(std::shared_ptr<const Value>) { return nullptr; }
	template<typename T> friend struct call_access;
};

class Buffer {
public:
	Buffer& operator=(const class Memory& m);
	Buffer() = default;
	Buffer(const void* p, size_t n) : v((const uint8_t*)p, (const uint8_t*)p + n) {}
	Buffer(const std::vector<uint8_t>& d) : v(d) {}
	explicit Buffer(const std::string& d) : v(d.begin(), d.end()) {}
	uint8_t* data() { return v.data(); }
	const uint8_t* data() const { return v.data(); }
	template<typename T> const T* data_as() const { return (const T*)v.data(); }
	size_t size() const { return v.size(); }
	void resize(size_t n) { v.resize(n); }
	void reserve(size_t n) { v.reserve(n); }
	void clear() { v.clear(); }
	bool empty() const { return v.empty(); }
	std::string as_string() const { return std::string(v.begin(), v.end()); }
	std::vector<uint8_t> as_vector() const { return v; }
	bool operator==(const Buffer& o) const { return v == o.v; }
	bool operator!=(const Buffer& o) const { return v != o.v; }
	bool operator<(const Buffer& o) const { return v < o.v; }
	uint8_t& operator[](size_t i) { return v[i]; }
	const uint8_t& operator[](size_t i) const { return v[i]; }
	std::vector<uint8_t> v;
};

inline Buffer& Buffer::operator=(const Memory& m) { v.assign(m.data.begin(), m.data.end()); return *this; }

// ---------------------------------------------------------------- Variant / Object (JSON value model)

class Variant {
public:
	enum kind_e { NIL, BOOL, UINT, INT, DOUBLE, STRING, ARRAY, OBJECT, VALUE };
	Variant() = default;
	Variant(const std::nullptr_t&) {}
	Variant(const bool& v) : kind(BOOL), u(v) {}
	Variant(const uint8_t& v) : kind(UINT), u(v) {} Variant(const uint16_t& v) : kind(UINT), u(v) {}
	Variant(const uint32_t& v) : kind(UINT), u(v) {} Variant(const uint64_t& v) : kind(UINT), u(v) {}
	Variant(const unsigned long long& v) : kind(UINT), u(v) {} Variant(const long long& v) : kind(INT), i(v) {}
	Variant(const int8_t& v) : kind(INT), i(v) {} Variant(const int16_t& v) : kind(INT), i(v) {}
	Variant(const int32_t& v) : kind(INT), i(v) {} Variant(const int64_t& v) : kind(INT), i(v) {}
	Variant(const float& v) : kind(DOUBLE), d(v) {} Variant(const double& v) : kind(DOUBLE), d(v) {}
	Variant(const char* s) : kind(STRING), s(s) {}
	Variant(const std::string& s) : kind(STRING), s(s) {}
	explicit Variant(const Hash64& h) : kind(UINT), u(h.value) {}
	Variant(const Object& o);
	template<typename T> Variant(const std::vector<T>& v) { from_list(v); }
	template<typename T> Variant(const std::set<T>& v) { from_list(v); }
	template<typename T, size_t N> Variant(const std::array<T, N>& v) { from_list(v); }
	template<typename A, typename B> Variant(const std::pair<A, B>& v) { kind = ARRAY; arr.push_back(Variant(v.first)); arr.push_back(Variant(v.second)); }
	template<typename T> Variant(const optional<T>& v) { if(v) *this = Variant(*v); }
	template<typename T, typename = std::enable_if_t<!std::is_arithmetic<T>::value && !std::is_convertible<T*, std::string*>::value && !std::is_enum<T>::value && !std::is_pointer<T>::value && !std::is_array<T>::value>>
	explicit Variant(const T& v);
	template<typename T> Variant& operator=(const T& v) { Variant t(v); std::swap(t, *this); return *this; }
	Variant(const Variant&) = default; Variant(Variant&&) = default; Variant& operator=(const Variant&) = default; Variant& operator=(Variant&&) = default;
	template<typename T> Variant(const std::list<T>& v) { from_list(v); }
	template<typename K, typename V> explicit Variant(const std::map<K, V>& v) { kind = ARRAY; for(const auto& e : v) arr.push_back(Variant(e)); }
	template<typename... A> explicit Variant(const std::tuple<A...>& v) { kind = ARRAY; }
	template<typename T> explicit Variant(std::shared_ptr<T> v) : kind(v ? VALUE : NIL), val(std::const_pointer_cast<std::remove_const_t<T>>(v)) {}
	size_t size() const { return data.size(); }
	bool is_bool_() const { return is_bool(); }
	template<typename T> void from_list(const T& v) { kind = ARRAY; for(const auto& e : v) arr.push_back(Variant(e)); }

	bool is_null() const { return kind == NIL; }
	bool empty() const { return kind == NIL; }
	bool is_bool() const { return kind == BOOL; }
	bool is_ulong() const { return kind == UINT; }
	bool is_long() const { return kind == INT; }
	bool is_integral() const { return kind == UINT || kind == INT; }
	bool is_double() const { return kind == DOUBLE; }
	bool is_string() const { return kind == STRING; }
	bool is_array() const { return kind == ARRAY; }
	bool is_object() const { return kind == OBJECT; }
	bool is_value() const { return kind == VALUE; }
	bool is_map() const { return false; }
	bool is_void() const { return kind == NIL; }
	bool is_byte_array() const { return kind == ARRAY; }

	template<typename T> T to() const { T v = T(); to(v); return v; }
	template<typename T> void to(T& v) const;
	void to(std::string& v) const { v = kind == STRING ? s : std::string(); }
	void to(Variant& v) const { v = *this; }
	void to(Object& v) const;
	template<typename T> void to(std::vector<T>& v) const { v.clear(); for(const auto& e : arr) v.push_back(e.template to<T>()); }
	template<typename T> void to(std::set<T>& v) const { v.clear(); for(const auto& e : arr) v.insert(e.template to<T>()); }
	template<typename T> void to(std::shared_ptr<T>& v) const { v = std::dynamic_pointer_cast<std::remove_const_t<T>>(val); }
	template<typename T> void to(optional<T>& v) const { if(is_null()) v = nullptr; else v = to<T>(); }
	template<typename T, size_t N> void to(std::array<T, N>& v) const { v = {}; for(size_t i = 0; i < N && i < arr.size(); ++i) arr[i].to(v[i]); }
	template<typename A, typename B> void to(std::pair<A, B>& v) const { if(arr.size() == 2) { arr[0].to(v.first); arr[1].to(v.second); } }
	template<typename K, typename V> void to(std::map<K, V>& v) const { v.clear(); }
	template<typename K, typename V> void to(std::unordered_map<K, V>& v) const { v.clear(); }
	template<typename... A> void to(std::tuple<A...>& v) const { }
	template<typename T> std::shared_ptr<const T> to_value() const { return std::dynamic_pointer_cast<const T>(val); }
	Object to_object() const;
	std::string to_string() const;
	operator bool() const { return kind != NIL && to<bool>(); }
	template<typename V> void accept_generic(V&) const {}
	std::string to_string_value() const { return kind == STRING ? s : to_string(); }
	int64_t to_int() const { return kind == INT ? i : int64_t(u); }
	uint64_t to_uint() const { return kind == INT ? uint64_t(i) : u; }
	void assign(const Variant& v) { *this = v; }
	void clear() { *this = Variant(); }
	bool operator==(const Variant& o) const { return to_string() == o.to_string(); }
	bool operator!=(const Variant& o) const { return !(*this == o); }
	bool operator<(const Variant& o) const { return to_string() < o.to_string(); }

	kind_e kind = NIL;
	uint64_t u = 0; int64_t i = 0; double d = 0;
	std::string s;
	std::vector<Variant> arr;
	std::shared_ptr<Object> obj;
	std::shared_ptr<Value> val;
	std::vector<uint8_t> data;
};

class Object {
public:
	std::map<std::string, Variant> field;
	Object() = default;
	Variant& operator[](const std::string& k) { return field[k]; }
	Variant operator[](const std::string& k) const { auto it = field.find(k); return it != field.end() ? it->second : Variant(); }
	bool empty() const { return field.empty(); }
	size_t size() const { return field.size(); }
	void clear() { field.clear(); }
	void erase(const std::string& k) { field.erase(k); }
	bool has(const std::string& k) const { return field.count(k); }
	std::map<std::string, Variant> get_fields() const { return field; }
	Variant get_field(const std::string& k) const { return (*this)[k]; }
	std::string to_string() const { return Variant(*this).to_string(); }
	template<typename T> std::shared_ptr<T> to_value() const { return nullptr; }
	template<typename T> T to() const { return T(); }
	Object to_object() const { return *this; }
	template<typename V> void accept_generic(V&) const {}
	bool operator==(const Object& o) const { return to_string() == o.to_string(); }
	bool operator!=(const Object& o) const { return !(*this == o); }
	bool operator<(const Object& o) const { return to_string() < o.to_string(); }
};
inline Variant::Variant(const Object& o) : kind(OBJECT), obj(std::make_shared<Object>(o)) {}
inline Object Variant::to_object() const { return obj ? *obj : Object(); }
inline void Variant::to(Object& v) const { v = to_object(); }
inline Object Value::to_object() const { return Object(); }
inline Variant Value::get_field(const std::string&) const { return Variant(); }
inline Variant Value::get_field_by_index(uint32_t) const { return Variant(); }
inline std::ostream& operator<<(std::ostream& o, const Variant& v) { return o << v.to_string(); }
inline std::ostream& operator<<(std::ostream& o, const Object& v) { return o << v.to_string(); }
inline std::istream& operator>>(std::istream& in, Variant& v) { std::string s; in >> s; v = Variant(s); return in; }
inline std::istream& operator>>(std::istream& in, Object& v) { return in; }

// ---------------------------------------------------------------- text read / write

class JSON_Value { public: virtual ~JSON_Value() {} virtual Object to_object() const { return Object(); } virtual Variant to_variant() const { return Variant(); } };
class JSON_Array : public JSON_Value { public: const std::vector<std::shared_ptr<JSON_Value>>& get_values() const { return list; } std::vector<std::shared_ptr<JSON_Value>> list; std::vector<Variant> values; };
class JSON_Object : public JSON_Value {};
std::shared_ptr<JSON_Value> read_json(std::istream& in, bool until_eof = false);

struct istream_tag { std::istream& s; operator std::istream&() const { return s; } };
struct ostream_tag { std::ostream& s; operator std::ostream&() const { return s; } };
template<typename T> std::enable_if_t<std::is_arithmetic<T>::value> read(std::istream& in, T& v) { in >> v; }
namespace shim { template<typename T> void rdt(std::istream& in, T& v); template<typename T> void wrt(std::ostream& o, const T& v); }
inline void read(std::istream& in, uint8_t& v) { int t = 0; in >> t; v = t; }
inline void read(std::istream& in, int8_t& v) { int t = 0; in >> t; v = t; }
inline void read(std::istream& in, bool& v) { std::string t; in >> t; v = (t == "true" || t == "1"); }
inline void read(std::istream& in, std::string& v) {
	v.clear(); in >> std::ws; if(in.peek() == '"') { in.get(); char c; while(in.get(c) && c != '"') { if(c == '\\') in.get(c); v.push_back(c); } } else { std::getline(in, v, '\0'); }
}
inline void read(std::istream& in, Hash64& v) { in >> v.value; }
inline void read(std::istream& in, Variant& v) { in >> v; }
inline void read(std::istream& in, Object& v) { in >> v; }
inline void read(std::istream& in, Buffer& v) {}
template<typename T> void read(std::istream& in, std::vector<T>& v) { }
template<typename T> void read(std::istream& in, std::set<T>& v) { }
template<typename T, size_t N> void read(std::istream& in, std::array<T, N>& v) { }
template<typename K, typename V> void read(std::istream& in, std::map<K, V>& v) { }
template<typename K, typename V> void read(std::istream& in, std::pair<K, V>& v) { }
template<typename... A> void read(std::istream& in, std::tuple<A...>& v) { }
template<typename T> void read(std::istream& in, optional<T>& v) { }
template<typename T> void read(std::istream& in, std::shared_ptr<T>& v) { }

inline void write(std::ostream& o, const bool& v) { o << (v ? "true" : "false"); }
inline void write(std::ostream& o, const uint8_t& v) { o << int(v); } inline void write(std::ostream& o, const int8_t& v) { o << int(v); }
inline void write(std::ostream& o, const uint16_t& v) { o << v; } inline void write(std::ostream& o, const int16_t& v) { o << v; }
inline void write(std::ostream& o, const uint32_t& v) { o << v; } inline void write(std::ostream& o, const int32_t& v) { o << v; }
inline void write(std::ostream& o, const uint64_t& v) { o << v; } inline void write(std::ostream& o, const int64_t& v) { o << v; }
inline void write(std::ostream& o, const float& v) { o << v; } inline void write(std::ostream& o, const double& v) { o << v; }
inline void write(std::ostream& o, const std::string& v) { o << '"'; for(char c : v) { if(c == '"' || c == '\\') o << '\\'; o << c; } o << '"'; }
inline void write(std::ostream& o, const char* v) { write(o, std::string(v)); }
inline void write(std::ostream& o, const Hash64& v) { o << v.value; }
inline void write(std::ostream& o, const Variant& v) { o << v; }
inline void write(std::ostream& o, const Object& v) { o << v; }
inline void write(std::ostream& o, const Buffer& v) { o << '[' << v.size() << ']'; }
inline void write(std::ostream& o, const std::nullptr_t&) { o << "null"; }
template<typename T> void write(std::ostream& o, const std::shared_ptr<T>& v) { if(v) v->write(o); else o << "null"; }
template<typename T> void write(std::ostream& o, const std::vector<T>& v);
template<typename T> void write(std::ostream& o, const std::set<T>& v);
template<typename T, size_t N> void write(std::ostream& o, const std::array<T, N>& v);
template<typename K, typename V> void write(std::ostream& o, const std::map<K, V>& v);
template<typename K, typename V> void write(std::ostream& o, const std::pair<K, V>& v);
template<typename... A> void write(std::ostream& o, const std::tuple<A...>& v);
template<typename T> void write(std::ostream& o, const optional<T>& v);
template<typename T> void write_list(std::ostream& o, const T& v) { o << '['; bool f = true; for(const auto& e : v) { if(!f) o << ", "; f = false; shim::wrt(o, e); } o << ']'; }
template<typename T> void write(std::ostream& o, const std::vector<T>& v) { write_list(o, v); }
inline void write(std::ostream& o, const std::vector<bool>& v) { o << '[' << v.size() << ']'; }
template<typename T> void write(std::ostream& o, const std::set<T>& v) { write_list(o, v); }
template<typename T, size_t N> void write(std::ostream& o, const std::array<T, N>& v) { write_list(o, v); }
template<typename K, typename V> void write(std::ostream& o, const std::map<K, V>& v) { write_list(o, v); }
template<typename K, typename V> void write(std::ostream& o, const std::pair<K, V>& v) { o << '['; shim::wrt(o, v.first); o << ", "; shim::wrt(o, v.second); o << ']'; }
template<typename... A> void write(std::ostream& o, const std::tuple<A...>& v) { o << "[...]"; }
template<typename T> void write(std::ostream& o, const optional<T>& v) { if(v) shim::wrt(o, *v); else o << "null"; }
template<typename T> std::ostream& operator<<(std::ostream& o, const optional<T>& v) { if(v) shim::wrt(o, *v); else o << "null"; return o; }

inline std::string Variant::to_string() const {
	std::stringstream o;
	switch(kind) {
		case NIL: o << "null"; break; case BOOL: o << (u ? "true" : "false"); break; case UINT: o << u; break; case INT: o << i; break;
		case DOUBLE: o << d; break; case STRING: vnx::write(o, s); break;
		case ARRAY: { o << '['; bool f = true; for(auto& e : arr) { if(!f) o << ", "; f = false; o << e.to_string(); } o << ']'; break; }
		case OBJECT: { o << '{'; bool f = true; for(auto& e : obj->field) { if(!f) o << ", "; f = false; vnx::write(o, e.first); o << ": " << e.second.to_string(); } o << '}'; break; }
		case VALUE: if(val) val->write(o); break;
	}
	return o.str();
}

template<typename T> std::string to_string(const T& v) { std::stringstream s; shim::wrt(s, v); return s.str(); }
template<typename T> std::string to_string_value(const T& v) { auto s = to_string(v); if(s.size() >= 2 && s[0] == '"') return s.substr(1, s.size() - 2); return s; }
template<typename T> std::string to_string_value_full(const T& v) { return to_string_value(v); }
template<typename T> std::string to_pretty_string(const T& v) { return to_string(v); }
namespace shim {
	using vnx::read; using vnx::write;
	template<typename T> void rdt(std::istream& in, T& v) { istream_tag t{in}; read(t, v); }
	template<typename T> void wrt(std::ostream& o, const T& v) { ostream_tag t{o}; write(t, v); }
}
template<typename T> void from_string(const std::string& s, T& v) { std::stringstream in(s); shim::rdt(in, v); }
template<typename T> T from_string(const std::string& s) { T v = T(); from_string(s, v); return v; }
template<typename T> void from_string_value(const std::string& s, T& v) { from_string(s, v); }
inline void from_string_value(const std::string& s, std::string& v) { v = s; }
template<typename T> T from_string_value(const std::string& s) { T v = T(); from_string_value(s, v); return v; }
inline std::string to_hex_string(const void* p, size_t n, bool lower = false, bool = false) {
	static const char* h = "0123456789ABCDEF"; static const char* l = "0123456789abcdef"; auto* t = lower ? l : h;
	std::string s; for(size_t i = 0; i < n; ++i) { s.push_back(t[((const uint8_t*)p)[i] >> 4]); s.push_back(t[((const uint8_t*)p)[i] & 15]); } return s;
}
inline std::string to_hex_string_le(const void* p, size_t n, bool lower = false) { std::string t((const char*)p, n); std::reverse(t.begin(), t.end()); return to_hex_string(t.data(), n, lower); }
inline std::string to_hex_string(uint64_t v) { std::stringstream s; s << std::hex << v; return s.str(); }
inline std::vector<uint8_t> from_hex_string(const std::string& str) {
	size_t o = (str.size() > 1 && str[0] == '0' && (str[1] == 'x' || str[1] == 'X')) ? 2 : 0; std::vector<uint8_t> r;
	auto nib = [](char c) -> int { if(c >= '0' && c <= '9') return c - '0'; c = std::tolower(c); if(c >= 'a' && c <= 'f') return c - 'a' + 10; throw std::logic_error("invalid hex"); };
	for(size_t i = o; i + 1 < str.size(); i += 2) r.push_back(nib(str[i]) << 4 | nib(str[i + 1])); return r;
}
inline std::vector<uint8_t> from_hex_string_le(const std::string& str) { auto r = from_hex_string(str); std::reverse(r.begin(), r.end()); return r; }

template<typename T> void Variant::to(T& v) const {
	if constexpr(std::is_same<T, bool>::value) { v = kind == INT ? i != 0 : u != 0; }
	else if constexpr(std::is_floating_point<T>::value) { v = kind == DOUBLE ? d : kind == INT ? T(i) : T(u); }
	else if constexpr(std::is_arithmetic<T>::value) { v = kind == INT ? T(i) : kind == DOUBLE ? T(d) : T(u); }
	else { from_string(to_string(), v); }
}
template<typename T, typename> Variant::Variant(const T& v) { std::stringstream o; shim::wrt(o, v); auto t = o.str(); kind = STRING; s = (t.size() >= 2 && t[0] == '"') ? t.substr(1, t.size() - 2) : t; }

// ---------------------------------------------------------------- binary read / write

template<typename T> void read_value(const void* buf, T& v, const uint16_t* = nullptr) { ::memcpy((void*)&v, buf, sizeof(T)); }
template<typename T> void write_value(void* buf, const T& v) { ::memcpy(buf, (const void*)&v, sizeof(T)); }
template<typename T> void write_value(TypeOutput& out, const T& v) { out.write(&v, sizeof(T)); }
template<typename T> void read_value(TypeInput& in, T& v) { in.read(&v, sizeof(T)); }
inline void skip(TypeInput&, const TypeCode*, const uint16_t*) { throw std::logic_error("skip() not supported"); }
template<typename T> void read_dynamic(TypeInput&, T&) { throw std::logic_error("read_dynamic() not supported"); }
template<typename T> void write_class_header(TypeOutput& out) { uint16_t c = CODE_VALUE; out.write(&c, 2); uint64_t h = T::VNX_TYPE_HASH; out.write(&h, 8); }
inline void read_byte_code(TypeInput& in, uint16_t* code) { in.read(code, 2); }
template<typename T> struct is_equivalent { bool operator()(const uint16_t*, const TypeCode*) { return false; } };
template<typename T> struct type {
	void create_dynamic_code(std::vector<uint16_t>&, const T&, bool = false) const {}
	void create_dynamic_code(std::vector<uint16_t>&) const {}
	const TypeCode* get_type_code() const { return nullptr; }
};
template<typename T> void create_dynamic_code(std::vector<uint16_t>&) {}
template<typename T> void create_dynamic_code(std::vector<uint16_t>&, const T&, bool = false) {}

template<typename T> std::enable_if_t<std::is_arithmetic<T>::value> read(TypeInput& in, T& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { in.read(&v, sizeof(T)); }
template<typename T> std::enable_if_t<std::is_arithmetic<T>::value> write(TypeOutput& out, const T& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { out.write(&v, sizeof(T)); }
inline void read(TypeInput& in, Hash64& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { in.read(&v.value, 8); }
inline void write(TypeOutput& out, const Hash64& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { out.write(&v.value, 8); }
inline void read(TypeInput& in, std::string& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { uint32_t n = 0; in.read(&n, 4); v.resize(n); in.read(&v[0], n); }
inline void write(TypeOutput& out, const std::string& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { uint32_t n = v.size(); out.write(&n, 4); out.write(v.data(), n); }
inline void read(TypeInput& in, Buffer& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { uint32_t n = 0; in.read(&n, 4); v.resize(n); in.read(v.data(), n); }
inline void write(TypeOutput& out, const Buffer& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { uint32_t n = v.size(); out.write(&n, 4); out.write(v.data(), n); }
void read(TypeInput& in, Variant& v, const TypeCode* = nullptr, const uint16_t* = nullptr);
void write(TypeOutput& out, const Variant& v, const TypeCode* = nullptr, const uint16_t* = nullptr);
void read(TypeInput& in, Object& v, const TypeCode* = nullptr, const uint16_t* = nullptr);
void write(TypeOutput& out, const Object& v, const TypeCode* = nullptr, const uint16_t* = nullptr);
std::shared_ptr<Value> read(TypeInput& in);
void write(TypeOutput& out, std::shared_ptr<const Value> v);
inline void write(TypeOutput& out, std::nullptr_t) { uint16_t c = CODE_NULL; out.write(&c, 2); }
template<typename T> std::enable_if_t<std::is_base_of<Value, T>::value> read(TypeInput& in, std::shared_ptr<T>& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { v = std::dynamic_pointer_cast<std::remove_const_t<T>>(read(in)); }
template<typename T> std::enable_if_t<std::is_base_of<Value, T>::value> read(TypeInput& in, std::shared_ptr<const T>& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { v = std::dynamic_pointer_cast<const T>(read(in)); }
template<typename T> void write(TypeOutput& out, const std::shared_ptr<T>& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { write(out, std::static_pointer_cast<const Value>(v)); }
template<typename T> void read(TypeInput& in, std::vector<T>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const std::vector<T>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename T> void read(TypeInput& in, std::set<T>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const std::set<T>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename T, size_t N> void read(TypeInput& in, std::array<T, N>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename T, size_t N> void write(TypeOutput& out, const std::array<T, N>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename K, typename V> void read(TypeInput& in, std::map<K, V>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename K, typename V> void write(TypeOutput& out, const std::map<K, V>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename K, typename V> void read(TypeInput& in, std::pair<K, V>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename K, typename V> void write(TypeOutput& out, const std::pair<K, V>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename... A> void read(TypeInput& in, std::tuple<A...>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename... A> void write(TypeOutput& out, const std::tuple<A...>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename T> void read(TypeInput& in, optional<T>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const optional<T>& v, const TypeCode* = nullptr, const uint16_t* code = nullptr);

namespace shim {
	static const uint16_t arr8[3] = {CODE_ARRAY, 32, CODE_UINT8};
	inline const uint16_t* elem(const uint16_t* c, size_t off) { return c ? c + off : nullptr; }
	template<typename T> void rd(TypeInput& in, T& v, const TypeCode* t, const uint16_t* c);
	template<typename T> void wr(TypeOutput& out, const T& v, const TypeCode* t, const uint16_t* c);
}
template<typename T> void read(TypeInput& in, std::vector<T>& v, const TypeCode* t, const uint16_t* c) { uint32_t n = 0; in.read(&n, 4); v.clear(); for(uint32_t i = 0; i < n; ++i) { T e{}; shim::rd(in, e, t, shim::elem(c, 1)); v.push_back(std::move(e)); } }
template<typename T> void write(TypeOutput& out, const std::vector<T>& v, const TypeCode* t, const uint16_t* c) { uint32_t n = v.size(); out.write(&n, 4); for(const auto& e : v) shim::wr(out, e, t, shim::elem(c, 1)); }
template<typename T> void read(TypeInput& in, std::set<T>& v, const TypeCode* t, const uint16_t* c) { uint32_t n = 0; in.read(&n, 4); v.clear(); for(uint32_t i = 0; i < n; ++i) { T e{}; shim::rd(in, e, t, shim::elem(c, 1)); v.insert(std::move(e)); } }
template<typename T> void write(TypeOutput& out, const std::set<T>& v, const TypeCode* t, const uint16_t* c) { uint32_t n = v.size(); out.write(&n, 4); for(const auto& e : v) shim::wr(out, e, t, shim::elem(c, 1)); }
template<typename T, size_t N> void read(TypeInput& in, std::array<T, N>& v, const TypeCode* t, const uint16_t* c) { for(auto& e : v) shim::rd(in, e, t, shim::elem(c, 2)); }
template<typename T, size_t N> void write(TypeOutput& out, const std::array<T, N>& v, const TypeCode* t, const uint16_t* c) { for(const auto& e : v) shim::wr(out, e, t, shim::elem(c, 2)); }
template<typename K, typename V> void read(TypeInput& in, std::map<K, V>& v, const TypeCode* t, const uint16_t* c) { uint32_t n = 0; in.read(&n, 4); v.clear(); for(uint32_t i = 0; i < n; ++i) { K k{}; V x{}; shim::rd(in, k, t, shim::elem(c, 2)); shim::rd(in, x, t, c ? c + c[1] : nullptr); v.emplace(std::move(k), std::move(x)); } }
template<typename K, typename V> void write(TypeOutput& out, const std::map<K, V>& v, const TypeCode* t, const uint16_t* c) { uint32_t n = v.size(); out.write(&n, 4); for(const auto& e : v) { shim::wr(out, e.first, t, shim::elem(c, 2)); shim::wr(out, e.second, t, c ? c + c[1] : nullptr); } }
template<typename K, typename V> void read(TypeInput& in, std::pair<K, V>& v, const TypeCode* t, const uint16_t* c) { shim::rd(in, v.first, t, c ? c + c[2] : nullptr); shim::rd(in, v.second, t, c ? c + c[3] : nullptr); }
template<typename K, typename V> void write(TypeOutput& out, const std::pair<K, V>& v, const TypeCode* t, const uint16_t* c) { shim::wr(out, v.first, t, c ? c + c[2] : nullptr); shim::wr(out, v.second, t, c ? c + c[3] : nullptr); }
template<typename... A> void read(TypeInput& in, std::tuple<A...>& v, const TypeCode* t, const uint16_t* c) { }
template<typename... A> void write(TypeOutput& out, const std::tuple<A...>& v, const TypeCode* t, const uint16_t* c) { }
template<typename T> void read(TypeInput& in, optional<T>& v, const TypeCode* t, const uint16_t* c) { uint8_t f = 0; in.read(&f, 1); if(f) { T x{}; shim::rd(in, x, t, shim::elem(c, 1)); v = x; } else v = nullptr; }
template<typename T> void write(TypeOutput& out, const optional<T>& v, const TypeCode* t, const uint16_t* c) { uint8_t f = v ? 1 : 0; out.write(&f, 1); if(v) shim::wr(out, *v, t, shim::elem(c, 1)); }
inline void read(TypeInput& in, TypeCode& v, const TypeCode* = nullptr, const uint16_t* = nullptr) {}
inline void write(TypeOutput& out, const TypeCode& v, const TypeCode* = nullptr, const uint16_t* = nullptr) {}
inline void read(TypeInput& in, std::vector<bool>& v, const TypeCode*, const uint16_t*) {}
inline void write(TypeOutput& out, const std::vector<bool>& v, const TypeCode*, const uint16_t*) {}
namespace shim {
	template<typename T> void rd(TypeInput& in, T& v, const TypeCode* t, const uint16_t* c) { using vnx::read; read(in, v, t, c); }
	template<typename T> void wr(TypeOutput& out, const T& v, const TypeCode* t, const uint16_t* c) { using vnx::write; write(out, v, t, c); }
}
template<typename T> void read_generic(TypeInput& in, T& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { shim::rd(in, v, nullptr, nullptr); }
template<typename T> void write_generic(TypeOutput& out, const T& v, const TypeCode* = nullptr, const uint16_t* = nullptr) { shim::wr(out, v, nullptr, nullptr); }

// ---------------------------------------------------------------- accept

inline void accept(Visitor& v, const bool& x) { v.visit(x); }
inline void accept(Visitor& v, const uint8_t& x) { v.visit(x); } inline void accept(Visitor& v, const uint16_t& x) { v.visit(x); }
inline void accept(Visitor& v, const uint32_t& x) { v.visit(x); } inline void accept(Visitor& v, const uint64_t& x) { v.visit(x); }
inline void accept(Visitor& v, const int8_t& x) { v.visit(x); } inline void accept(Visitor& v, const int16_t& x) { v.visit(x); }
inline void accept(Visitor& v, const int32_t& x) { v.visit(x); } inline void accept(Visitor& v, const int64_t& x) { v.visit(x); }
inline void accept(Visitor& v, const float& x) { v.visit(x); } inline void accept(Visitor& v, const double& x) { v.visit(x); }
inline void accept(Visitor& v, const std::string& x) { v.visit(x); } inline void accept(Visitor& v, const char* x) { v.visit(std::string(x)); }
inline void accept(Visitor& v, const Hash64& x) { v.visit(x.value); }
inline void accept(Visitor& v, const Variant& x) {} inline void accept(Visitor& v, const Object& x) {} inline void accept(Visitor& v, const Buffer& x) {}
inline void accept(Visitor& v, const std::nullptr_t& x) {}
template<typename T> void accept(Visitor& v, const T& x) { x.accept(v); }
template<typename T> void accept(Visitor& v, const std::shared_ptr<T>& x) { if(x) x->accept(v); }
template<typename T> void accept(Visitor& v, const std::vector<T>& x) { for(const auto& e : x) vnx::accept(v, e); }
inline void accept(Visitor& v, const std::vector<bool>& x) {}
template<typename T> void accept(Visitor& v, const std::set<T>& x) { for(const auto& e : x) vnx::accept(v, e); }
template<typename T, size_t N> void accept(Visitor& v, const std::array<T, N>& x) { for(const auto& e : x) vnx::accept(v, e); }
template<typename K, typename T> void accept(Visitor& v, const std::map<K, T>& x) { for(const auto& e : x) { vnx::accept(v, e.first); vnx::accept(v, e.second); } }
template<typename K, typename T> void accept(Visitor& v, const std::pair<K, T>& x) { vnx::accept(v, x.first); vnx::accept(v, x.second); }
template<typename... A> void accept(Visitor& v, const std::tuple<A...>& x) { }
template<typename T> void accept(Visitor& v, const optional<T>& x) { if(x) vnx::accept(v, *x); }
template<typename V, typename T> void accept_generic(V& v, std::shared_ptr<const T> x) { if(x) x->accept_generic(v); }

class PrettyPrinter : public Visitor { public: std::ostream& out; explicit PrettyPrinter(std::ostream& o) : out(o) {} };
class DefaultPrinter : public Visitor { public: std::ostream& out; explicit DefaultPrinter(std::ostream& o) : out(o) {} };

template<typename T> std::enable_if_t<!std::is_base_of<Value, T>::value, T> clone(const T& v) { return v; }
template<typename T> std::enable_if_t<std::is_base_of<Value, T>::value, std::shared_ptr<T>> clone(const T& v) { return std::dynamic_pointer_cast<T>(v.clone()); }
template<typename T> std::shared_ptr<T> clone(const std::shared_ptr<const T>& v) { return v ? std::dynamic_pointer_cast<T>(v->clone()) : nullptr; }
template<typename T> std::shared_ptr<T> clone(const std::shared_ptr<T>& v) { return v ? std::dynamic_pointer_cast<T>(v->clone()) : nullptr; }

// ---------------------------------------------------------------- exceptions

class Exception : public Value {
public:
	std::string what; Exception() = default;
	static std::shared_ptr<Exception> create() { return std::make_shared<Exception>(); }
	static std::shared_ptr<Exception> from_what(const std::string& w) { auto e = create(); e->what = w; return e; }
};
class InternalError : public Exception { public: static std::shared_ptr<InternalError> create() { return std::make_shared<InternalError>(); } };
class OverflowException : public Exception { public: static std::shared_ptr<OverflowException> create() { return std::make_shared<OverflowException>(); } };
class NoSuchMethod : public Exception { public: std::string method; static std::shared_ptr<NoSuchMethod> create() { return std::make_shared<NoSuchMethod>(); } };
class exception : public std::exception {
public:
	exception() = default;
	exception(std::shared_ptr<const Exception> v) : val(v) {}
	const char* what() const noexcept override { return val ? val->what.c_str() : ""; }
	std::shared_ptr<const Exception> value() const { return val; }
	std::shared_ptr<const Exception> val;
};

// ---------------------------------------------------------------- struct_t

class struct_t { public: };
template<typename T, typename = void> struct is_object_impl : std::false_type {};
template<typename T> struct is_object_impl<T, std::void_t<decltype(std::declval<const T&>().to_object())>> : std::true_type {};
template<typename T> constexpr bool is_object() { return is_object_impl<T>::value; }

template<typename T> class Struct { public: };

} // vnx

namespace std {
	template<> struct hash<vnx::request_id_t> { size_t operator()(const vnx::request_id_t& h) const { return h.id; } };
	template<> struct hash<vnx::Hash64> { size_t operator()(const vnx::Hash64& h) const { return h.value; } };
	inline std::string to_string(const vnx::Hash64& h) { return h.to_hex_string(); }
}

#endif
