// runtime part of the stand-in (files, modules, clients, http)
#ifndef VNX_SHIM_SYS_H_
#define VNX_SHIM_SYS_H_
#include <vnx/shim_core.h>

namespace vnx {

class File {
public:
	TypeInput in; TypeOutput out;
	File() = default;
	explicit File(const std::string& path) : path(path) {}
	File(const std::string& path, const std::string& mode) : path(path) { open(mode); }
	File(File&& o) { *this = std::move(o); }
	File& operator=(File&& o) { close(); path = o.path; handle = o.handle; o.handle = nullptr; reset(); return *this; }
	~File() { close(); }
	void open(const std::string& mode) {
		close(); handle = ::fopen(path.c_str(), mode.c_str());
		if(!handle) throw std::runtime_error("fopen('" + path + "') failed");
		reset();
	}
	void open(const std::string& p, const std::string& mode) { path = p; open(mode); }
	void close() { if(handle) { flush_nothrow(); ::fclose(handle); handle = nullptr; } }
	bool is_open() const { return handle; }
	FILE* get_handle() const { return handle; }
	const std::string& get_path() const { return path; }
	std::string get_name(bool ext = true) const { std::filesystem::path p(path); return ext ? p.filename().string() : p.stem().string(); }
	std::string get_extension() const { return std::filesystem::path(path).extension().string(); }
	bool exists() const { return std::filesystem::exists(path); }
	int64_t last_write_time() const { return 0; }
	size_t file_size() const { return std::filesystem::file_size(path); }
	void remove() { close(); std::filesystem::remove(path); }
	void rename(const std::string& p) { if(::rename(path.c_str(), p.c_str())) throw std::runtime_error("rename() failed"); path = p; }
	void seek_begin() { seek_to(0); }
	void seek_to(int64_t p) { flush(); if(::fseek(handle, p, SEEK_SET)) throw std::runtime_error("fseek()"); in.reset(); in.total = p; out.reset(); out.total = p; }
	void seek_end() { flush(); ::fseek(handle, 0, SEEK_END); const auto p = ::ftell(handle); in.total = p; out.reset(); out.total = p; }
	int64_t get_input_pos() const { return in.get_input_pos(); }
	int64_t get_output_pos() const { return out.get_output_pos(); }
	void flush() { if(handle) { out.flush_tmp(); ::fflush(handle); } }
	void sync() { flush(); }
	void lock_exclusive() {} void lock_shared() {} void unlock() {}
	std::shared_ptr<FileSectionInputStream> mmap_read(int64_t, int64_t) { return nullptr; }
	void write_header() {} void read_header() {}
private:
	void flush_nothrow() { try { flush(); } catch(...) {} }
	void reset() { sin = std::make_shared<FileInputStream>(handle); sout = std::make_shared<FileOutputStream>(handle); in = TypeInput(sin.get()); out.tmp.clear(); out.stream = sout.get(); out.total = ::ftell(handle); in.total = ::ftell(handle); }
	std::string path; FILE* handle = nullptr;
	std::shared_ptr<FileInputStream> sin; std::shared_ptr<FileOutputStream> sout;
};

class Directory {
public:
	Directory() = default;
	explicit Directory(const std::string& p) : path(p) {}
	void create() { std::filesystem::create_directories(path); }
	void open() {} void open(const std::string& p) { path = p; }
	bool exists() const { return std::filesystem::is_directory(path); }
	std::string get_path() const { return path; } std::string get_name() const { return std::filesystem::path(path).filename().string(); }
	std::vector<std::shared_ptr<File>> files() const { std::vector<std::shared_ptr<File>> r; for(auto& e : std::filesystem::directory_iterator(path)) if(e.is_regular_file()) r.push_back(std::make_shared<File>(e.path().string())); return r; }
	std::vector<std::shared_ptr<Directory>> directories() const { return {}; }
	std::string path;
};

template<typename T> bool read_config(const std::string& k, T& v) { return false; }
template<typename T> void write_config(const std::string& k, const T& v) { }
template<typename T> void set_config(const std::string& k, const T& v) { }
Variant get_config(const std::string& k);
Variant get_config(const std::string& k, bool);
std::map<std::string, Variant> get_all_configs();
std::map<std::string, Variant> get_all_configs(bool);
bool is_config_protected(const std::string& k);
void protect_config(const std::string& k, bool);
Object read_config_file(const std::string& k);
void write_config_file(const std::string& k, const Object& o);
template<typename T> void write_config_file(const std::string& k, const T& v) { }
std::shared_ptr<Value> read_from_file(const std::string& path);
template<typename T> std::shared_ptr<T> read_from_file(const std::string& path) { return std::dynamic_pointer_cast<T>(read_from_file(path)); }
void write_to_file(const std::string& path, std::shared_ptr<const Value> v);
void write_to_file(const std::string& path, const Value& v);

void init(const std::string& name, int argc, char** argv, const std::map<std::string, std::string>& options = {});
void init(const char* name);
void wait(); void close(); void trigger_shutdown(); bool do_run();
int64_t get_time_micros(); int64_t get_wall_time_micros(); int64_t get_wall_time_millis(); int64_t get_wall_time_seconds(); int64_t get_time_millis(); int64_t get_time_seconds();
std::string get_date_string(bool local = false, int64_t t = 0);
std::string get_date_string_ex(const std::string& fmt, bool local = false, int64_t t = 0);
uint64_t rand64();
std::string get_host_name();
std::string resolve_host(const std::string& host);
bool is_valid_ip_addr(const std::string&);
std::vector<std::string> string_split(const std::string& s, char c, bool = false);
std::string string_subs(const std::string&, const std::string&, const std::string&);
std::string input_password(const std::string& prompt);
void secure_random_bytes(void* p, size_t n);
Hash64 get_process_id();
std::string get_process_name();

class LogMsg : public Value { public: int level = 0; static constexpr int ERROR = 1, WARN = 2, INFO = 3, DEBUG = 4; std::string message; std::string module; int64_t time = 0; std::string process; int display_level = 0; static std::shared_ptr<LogMsg> create() { return std::make_shared<LogMsg>(); } };
class LogStream { public: std::stringstream s; LogStream() = default; LogStream(LogStream&&) = default; template<typename T> LogStream& operator<<(const T& v) { s << v; return *this; } LogStream& operator<<(std::ostream& (*f)(std::ostream&)) { return *this; } };
LogStream log_out_(int); LogStream log_info(); LogStream log_warn(); LogStream log_error(); LogStream log_debug();

class TopicPtr { public: std::string name; TopicPtr() = default; TopicPtr(const char* n) : name(n) {} TopicPtr(const std::string& n) : name(n) {} operator bool() const { return !name.empty(); } operator std::string() const { return name; } std::string get_name() const { return name; } };
inline std::ostream& operator<<(std::ostream& o, const TopicPtr& t) { return o << t.name; }
inline void write(std::ostream& o, const TopicPtr& t) { o << '"' << t.name << '"'; }
inline void read(std::istream& in, TopicPtr& t) { read(in, t.name); }
inline void read(TypeInput& in, TopicPtr& t, const TypeCode* = nullptr, const uint16_t* = nullptr) { vnx::read(in, t.name); }
inline void write(TypeOutput& o, const TopicPtr& t, const TypeCode* = nullptr, const uint16_t* = nullptr) { vnx::write(o, t.name); }
inline void accept(Visitor& v, const TopicPtr& t) { v.visit(t.name); }

extern const TopicPtr log_out;
class Sample : public Value { public: TopicPtr topic; Hash64 src_mac; uint64_t seq_num = 0; uint64_t flags = 0; std::shared_ptr<const Value> value; int64_t time = 0; int64_t recv_time = 0; };
class Session : public Value { public: Hash64 id, vsid; std::string user, login_time; std::vector<std::string> permissions; std::set<std::string> perms; int64_t session_timeout = 0; bool has_permission(const std::string&) const { return true; } template<typename T> bool has_permission(const T&) const { return true; } bool is_default = false; };
std::shared_ptr<const Session> get_session(Hash64 id);
std::shared_ptr<const Session> get_session(const std::string& id);

class permission_denied : public std::runtime_error { public: permission_denied(const std::string& s = "") : std::runtime_error("permission denied: " + s) {} template<typename T> permission_denied(const T&) : std::runtime_error("permission denied") {} };

struct permission_e {
	enum enum_t : uint32_t { VIEW, CONST_REQUEST, PUBLISH, REQUEST, READ_CONFIG, WRITE_CONFIG, START, STOP, RESTART, SHUTDOWN, HOST_SHUTDOWN, SELF_TEST, LOCAL, INTROSPECTION, FRIEND };
	enum_t value = VIEW; permission_e() = default; permission_e(enum_t v) : value(v) {} operator enum_t() const { return value; }
	std::string to_string() const { return ""; } std::string to_string_value_full() const { return ""; }
	bool operator<(const permission_e& o) const { return value < o.value; }
};
inline void write(std::ostream& o, const permission_e& t) { o << int(t.value); }
inline std::ostream& operator<<(std::ostream& o, const permission_e& t) { return o << int(t.value); }

class ModuleInfo : public Value { public: Hash64 src_mac, id; std::string name, type; int64_t time = 0, time_started = 0; double time_idle = 0, time_running = 0; };

class Timer { public: int64_t interval = 0; bool active = false; void set_millis(int64_t) {} void set_micros(int64_t) {} void set_timeout_micros(int64_t) {} void set_timeout_millis(int64_t) {} void reset() {} void stop() {} void start() {} void set_timeout(int64_t) {} bool is_active() const { return active; } };
class Pipe { public: void pause() {} void resume() {} void close() {} static std::shared_ptr<Pipe> create() { return std::make_shared<Pipe>(); } };
class Node { public: };
class Publisher;

class Client { public: Client() = default; Client(const std::string&) {} Client(const Hash64&) {} virtual ~Client() {}
	void vnx_set_non_blocking(bool) {} void vnx_set_session_id(Hash64) {} void vnx_set_timeout(int64_t) {} void vnx_set_session(std::shared_ptr<const Session>) {} void vnx_set_tunnel(Hash64, Hash64) {} uint64_t vnx_get_id() const { return 0; }
	std::shared_ptr<const Value> vnx_request(std::shared_ptr<const Value>, bool) { return nullptr; }
	std::shared_ptr<const Value> call(const std::string&, const Object&) { return nullptr; }
};
class AsyncClient { public: AsyncClient() = default; AsyncClient(const std::string&) {} AsyncClient(Hash64) {} virtual ~AsyncClient() {}
	void vnx_set_non_blocking(bool) {} void vnx_set_session_id(Hash64) {} void vnx_set_timeout(int64_t) {} uint64_t vnx_get_id() const { return 0; } size_t vnx_get_num_pending() const { return 0; } void vnx_clear() {}
protected:
	void vnx_request(std::shared_ptr<const Value>, uint64_t) {}
	virtual int32_t vnx_purge_request(uint64_t, const vnx::exception&) { return 0; }
	virtual int32_t vnx_callback_switch(uint64_t, std::shared_ptr<const Value>) { return 0; }
	std::mutex vnx_mutex; std::atomic<uint64_t> vnx_next_id {0}; std::map<uint64_t, uint32_t> vnx_pending;
};
class GenericClient : public Client { public: using Client::Client; };
class GenericAsyncClient : public AsyncClient { public: using AsyncClient::AsyncClient; void call(const std::string&, const Object&, const std::function<void(std::shared_ptr<const Value>)>& = nullptr, const std::function<void(const vnx::exception&)>& = nullptr) {} };

class ThreadPool {
public:
	ThreadPool(int n = 1, int q = 0) {}
	int64_t add_task(const std::function<void()>& f) { f(); return 0; }
	void sync(const std::vector<int64_t>&) {} void sync(int64_t) {} void sync() {} void close() {} size_t get_num_pending_total() const { return 0; } size_t get_num_pending() const { return 0; } size_t get_num_running() const { return 0; } size_t get_num_threads() const { return 1; } void set_limit(int) {}
};

class Module {
public:
	Module(const std::string& name) : vnx_name(name) {}
	virtual ~Module() {}
	std::string vnx_name;
	bool vnx_do_run() const { return true; }
	virtual Hash64 get_type_hash() const { return Hash64(); }
	virtual std::string get_type_name() const { return ""; }
	virtual const TypeCode* get_type_code() const { return nullptr; }
	virtual void read(std::istream&) {} virtual void write(std::ostream&) const {} virtual void accept(Visitor&) const {}
	virtual Object to_object() const { return Object(); } virtual void from_object(const Object&) {}
	virtual Variant get_field(const std::string&) const { return Variant(); } virtual void set_field(const std::string&, const Variant&) {}
	uint64_t vnx_get_id() const { return 0; }
	std::string get_name() const { return vnx_name; }
	Hash64 get_mac_addr() const { return Hash64(); }
	static const int ERROR = 1, WARN = 2, INFO = 3, DEBUG = 4;
	std::string vnx_process_name; std::string vnx_log_level;
	void start() {} void close() {} void wait() {}
protected:
	std::shared_ptr<const Sample> vnx_sample; std::shared_ptr<const Session> vnx_session; int64_t vnx_time_running_total = 0; const vnx::request_id_t* vnx_request_ = nullptr;
	std::shared_ptr<Pipe> vnx_main_pipe;
	virtual void init() {} virtual void main() {} virtual void exit() {}
	virtual void handle(std::shared_ptr<const Value>) {}
	virtual void vnx_handle_switch(std::shared_ptr<const Value>) {}
	virtual std::shared_ptr<Value> vnx_call_switch(std::shared_ptr<const Value>, const request_id_t&) { return nullptr; }
	LogStream log(int, int = 0) const { return LogStream(); }
	static const int BLOCKING = 1;
	struct vnx_request_t { request_id_t id; std::shared_ptr<const Session> session; };
	std::shared_ptr<const vnx_request_t> vnx_request;
	void publish(std::shared_ptr<const Value>, const TopicPtr&, int = 0) const {}
	template<typename T> void publish(const std::shared_ptr<T>& v, const TopicPtr& t, int f = 0) const { publish(std::shared_ptr<const Value>(v), t, f); }
	void subscribe(const TopicPtr&, int = 0, int = 0) {} void subscribe(Hash64, int = 0, int = 0) {} void unsubscribe(const TopicPtr&) {}
	std::shared_ptr<Pipe> open_pipe(const std::string&, int = 0, int = 0) { return nullptr; } std::shared_ptr<Pipe> open_pipe(Hash64, std::shared_ptr<Module>, int) { return nullptr; }
	template<typename... A> std::shared_ptr<Pipe> open_pipe(const A&...) { return nullptr; }
	std::shared_ptr<Timer> add_timer(const std::function<void()>&) { return std::make_shared<Timer>(); }
	std::shared_ptr<Timer> set_timer_millis(int64_t, const std::function<void()>&) { return std::make_shared<Timer>(); } std::shared_ptr<Timer> set_timer_micros(int64_t, const std::function<void()>&) { return std::make_shared<Timer>(); }
	std::shared_ptr<Timer> set_timeout_millis(int64_t, const std::function<void()>&) { return std::make_shared<Timer>(); } std::shared_ptr<Timer> set_timeout_micros(int64_t, const std::function<void()>&) { return std::make_shared<Timer>(); }
	void add_task(const std::function<void()>& f) { tasks.push_back(f); }
	template<typename T> void add_async_client(const T&) {} 
	std::shared_ptr<Timer> get_timer(const std::string&) { return nullptr; }
	void vnx_async_return(const request_id_t&, std::shared_ptr<const Value>) const {} void vnx_async_return_ex(const request_id_t&, const std::exception&) const {} void vnx_async_return_ex_what(const request_id_t&, const std::string&) const {} void vnx_async_return_ex(const request_id_t&, std::shared_ptr<const Value>) const {}
	Object vnx_get_config_object() const { return Object(); } Variant vnx_get_config(const std::string&) const { return Variant(); } void vnx_set_config_object(const Object&) {} void vnx_set_config(const std::string&, const Variant&) {} TypeCode vnx_get_type_code() const { return TypeCode(); } std::shared_ptr<const ModuleInfo> vnx_get_module_info() const { return nullptr; } bool vnx_self_test() const { return true; }
	virtual void vnx_restart() {} virtual void vnx_stop() {}
	void send_to(std::shared_ptr<const Value>, std::shared_ptr<Pipe>, int = 0) {} void exit_module() {}
	template<typename T> void set_impl(const T&) {}
	void show() {}
	std::deque<std::function<void()>> tasks;
	template<typename T> friend class Handle;
};
template<typename T> class Handle { public: std::shared_ptr<T> p; Handle() = default; Handle(T* p) : p(p) {} Handle& operator=(T* q) { p.reset(q); return *this; } T* operator->() const { return p.get(); } T& operator*() const { return *p; } T* get() const { return p.get(); } operator bool() const { return bool(p); } void start() {} void start_detached() {} void close() {} void wait() {} void reset() { p = nullptr; } std::string get_name() const { return p ? p->get_name() : std::string(); } Hash64 get_id() const { return Hash64(); } T* start_detached_ex() { return get(); } };

class Endpoint : public Value { public: static std::shared_ptr<Endpoint> from_url(const std::string&) { return nullptr; } std::string to_url() const { return ""; } };
class TcpEndpoint : public Endpoint { public: static const int default_port = 4444; std::string host_name; int port = 0; bool async_connect = false; int open() const { return 0; } int connect(int) const { return 0; } int accept(int) const { return 0; } void bind(int) const {} void close(int) const {} void listen(int) const {} void set_options(int) const {} void set_non_blocking(int) const {} static std::shared_ptr<TcpEndpoint> create() { return std::make_shared<TcpEndpoint>(); } std::shared_ptr<Value> clone() const override { return std::make_shared<TcpEndpoint>(*this); } };
class Server : public Module { public: Server(const std::string& n, std::shared_ptr<const Endpoint>) : Module(n) {} template<typename T> Server(const std::string& n, const T&) : Module(n) {} vnx::bool_t use_authentication, allow_login; std::string default_access; };
class Proxy : public Module { public: Proxy(const std::string& n, std::shared_ptr<const Endpoint>) : Module(n) {} template<typename T> Proxy(const std::string& n, const T&) : Module(n) {} std::vector<std::string> import_list, export_list, forward_list, tunnel_list; std::map<std::string, std::string> import_map, export_map, forward_map, tunnel_map; TopicPtr import_, export_; int64_t time_sync = 0; vnx::bool_t auto_import, block_until_connect, recv_async, default_access, no_retry; };
class ProxyClient : public Client { public: using Client::Client; void login(const std::string&, const std::string&) {} vnx::Hash64 wait_on_connect(int = 0) { return Hash64(); } std::string get_remote_user() { return ""; } Hash64 wait_on_connect_async() { return Hash64(); } void enable_import(const std::string&) {} template<typename... A> void enable_export(const A&...) {} Hash64 wait_on_disconnect() { return Hash64(); } };
class ProcessClient : public Client { public: using Client::Client; void trigger_shutdown_async() {} void trigger_shutdown() {} };
class Terminal : public Module { public: Terminal(const std::string& n) : Module(n) {} };
class SHA256 { public: void update(const void*, size_t) {} std::string finalize() { return ""; } void finalize(uint8_t*) {} };
class CRC64 { public: uint64_t crc = 0; void update(const void* p, size_t n) { for(size_t i = 0; i < n; ++i) crc = (crc ^ ((const uint8_t*)p)[i]) * 1099511628211ull + 0x9E37; } template<typename T> void update(const T& v) { update(&v, sizeof(v)); } void update(const std::string& s) { update(s.data(), s.size()); } void update(uint64_t v) { update(&v, 8); } void update(int64_t v) { update(&v, 8); } uint64_t get() const { return crc; } };
inline void open_pipe(const std::string&, Module*, int) {}
template<typename... A> std::shared_ptr<Pipe> open_pipe(const A&...) { return nullptr; }
std::shared_ptr<Pipe> get_pipe(Hash64);
inline std::shared_ptr<Pipe> get_pipe(const std::string&) { return nullptr; }
template<typename... A> void open_flow(const A&...) {}

#define VNX_SHIM_MI(NAME, ...) \
	class ModuleInterface_##NAME : public Value { public: __VA_ARGS__ static std::shared_ptr<ModuleInterface_##NAME> create() { return std::make_shared<ModuleInterface_##NAME>(); } static const TypeCode* static_get_type_code() { return nullptr; } };
VNX_SHIM_MI(vnx_get_config, std::string name;)          VNX_SHIM_MI(vnx_get_config_return, Variant _ret_0;)
VNX_SHIM_MI(vnx_get_config_object, )                    VNX_SHIM_MI(vnx_get_config_object_return, Object _ret_0;)
VNX_SHIM_MI(vnx_get_module_info, )                      VNX_SHIM_MI(vnx_get_module_info_return, std::shared_ptr<const ModuleInfo> _ret_0;)
VNX_SHIM_MI(vnx_get_type_code, )                        VNX_SHIM_MI(vnx_get_type_code_return, TypeCode _ret_0;)
VNX_SHIM_MI(vnx_restart, )                              VNX_SHIM_MI(vnx_restart_return, )
VNX_SHIM_MI(vnx_self_test, )                            VNX_SHIM_MI(vnx_self_test_return, vnx::bool_t _ret_0;)
VNX_SHIM_MI(vnx_set_config, std::string name; Variant value;) VNX_SHIM_MI(vnx_set_config_return, )
VNX_SHIM_MI(vnx_set_config_object, Object config;)      VNX_SHIM_MI(vnx_set_config_object_return, )
VNX_SHIM_MI(vnx_stop, )                                 VNX_SHIM_MI(vnx_stop_return, )

namespace addons {

class HttpResponse : public Value {
public:
	int32_t status = 0; std::string content_type; std::string error_text; Buffer payload; std::vector<std::pair<std::string, std::string>> headers; bool is_chunked = false; bool is_dynamic = false; int64_t total_size = 0; int64_t max_chunk_size = 0;
	static std::shared_ptr<HttpResponse> create() { return std::make_shared<HttpResponse>(); }
	static std::shared_ptr<const HttpResponse> from_status(int) { return create(); } static std::shared_ptr<const HttpResponse> from_text(const std::string&) { return create(); } static std::shared_ptr<const HttpResponse> from_text_ex(const std::string&, int) { return create(); }
	static std::shared_ptr<const HttpResponse> from_variant_json(const Variant&) { return create(); } static std::shared_ptr<const HttpResponse> from_object_json(const Object&) { return create(); }
	bool is_json() const { return false; } bool is_text() const { return false; } std::string parse_text() const { return ""; } Variant parse_json() const { return Variant(); } vnx::optional<std::string> find_header_value(const std::string&) const { return nullptr; }
	std::shared_ptr<Value> clone() const override { return std::make_shared<HttpResponse>(*this); }
	vnx::Hash64 request_id; std::vector<std::pair<std::string, std::string>> header_map;
};
class HttpRequest : public Value {
public:
	std::string method, url, path, content_type; std::map<std::string, std::string> query_params; Buffer payload; std::shared_ptr<const Session> session; std::map<std::string, std::string> cookies; std::vector<std::pair<std::string, std::string>> headers;
	std::string get_query_value(const std::string&) const { return ""; } vnx::optional<std::string> find_query_value(const std::string&) const { return nullptr; }
	vnx::optional<std::string> find_header_value(const std::string&) const { return nullptr; } std::string get_header_value(const std::string&) const { return ""; }
	std::shared_ptr<const Session> get_session() const { return session; }
	bool is_json() const { return false; } bool is_text() const { return false; } std::string parse_text() const { return ""; } Variant parse_json() const { return Variant(); } vnx::Hash64 id; bool has_permission() const { return true; } vnx::optional<std::string> get_remote_host() const { return nullptr; }
	static std::shared_ptr<HttpRequest> create() { return std::make_shared<HttpRequest>(); }
};
class HttpData : public Value { public: Buffer data; bool is_eof = false; static std::shared_ptr<HttpData> create() { return std::make_shared<HttpData>(); } };
struct http_request_options_t { std::map<std::string, std::string> query; std::map<std::string, std::string> headers; int32_t connection_timeout_ms = 0, read_timeout_ms = 0, write_timeout_ms = 0; bool follow_redirects = true; std::vector<std::pair<std::string, std::string>> header_list; };
class HttpComponent_http_request : public Value { public: std::shared_ptr<const HttpRequest> request; std::string sub_path; static std::shared_ptr<HttpComponent_http_request> create() { return std::make_shared<HttpComponent_http_request>(); } static const TypeCode* static_get_type_code() { return nullptr; } };
class HttpComponent_http_request_return : public Value { public: std::shared_ptr<const HttpResponse> _ret_0; static std::shared_ptr<HttpComponent_http_request_return> create() { return std::make_shared<HttpComponent_http_request_return>(); } };
class HttpComponent_http_request_chunk : public Value { public: std::shared_ptr<const HttpRequest> request; std::string sub_path; int64_t offset = 0, max_bytes = 0; static std::shared_ptr<HttpComponent_http_request_chunk> create() { return std::make_shared<HttpComponent_http_request_chunk>(); } static const TypeCode* static_get_type_code() { return nullptr; } };
class HttpComponent_http_request_chunk_return : public Value { public: std::shared_ptr<const HttpData> _ret_0; static std::shared_ptr<HttpComponent_http_request_chunk_return> create() { return std::make_shared<HttpComponent_http_request_chunk_return>(); } };
template<typename T> class HttpInterface { public: HttpInterface(T*, const std::string&) {} template<typename... A> HttpInterface(const A&...) {} void http_request(std::shared_ptr<const HttpRequest>, const std::string&, const request_id_t&, std::shared_ptr<const Session> = nullptr) const {} void http_request_chunk(std::shared_ptr<const HttpRequest>, const std::string&, int64_t, int64_t, const request_id_t&) const {} };
class HttpServer : public Module { public: HttpServer(const std::string& n) : Module(n) {} std::map<std::string, std::string> components; std::string access_token_header, token_header_name; std::map<std::string, std::string> token_map; int port = 0; std::string default_access, login_user; vnx::bool_t auto_session, allow_cross_origin; };
class HttpBalancer : public Module { public: HttpBalancer(const std::string& n) : Module(n) {} std::vector<Hash64> backend; };
class HttpClient : public Module { public: TopicPtr output_response; HttpClient(const std::string& n) : Module(n) {} int32_t connection_timeout_ms = 0; };
class FileServer : public Module { public: FileServer(const std::string& n) : Module(n) {} std::string www_root; std::map<std::string, std::string> mime_type_map; std::vector<std::string> directory_files; bool directory_listing = false; };
class HttpClientClient : public Client { public: using Client::Client; template<typename... A> std::shared_ptr<const HttpResponse> get(const A&...) { return nullptr; } template<typename... A> Variant get_json_(const A&...) { return Variant(); } Variant get_json(const std::string&, const http_request_options_t& = {}) { return Variant(); } template<typename... A> Variant post_json(const A&...) { return Variant(); } };
class HttpClientAsyncClient : public AsyncClient { public: using AsyncClient::AsyncClient;
	uint64_t get(const std::string&, const http_request_options_t&, const std::function<void(std::shared_ptr<const HttpResponse>)>& = nullptr, const std::function<void(const vnx::exception&)>& = nullptr) { return 0; }
	uint64_t get_json(const std::string&, const http_request_options_t&, const std::function<void(const Variant&)>& = nullptr, const std::function<void(const vnx::exception&)>& = nullptr) { return 0; }
	uint64_t post_json(const std::string&, const Variant&, const http_request_options_t&, const std::function<void(std::shared_ptr<const HttpResponse>)>& = nullptr, const std::function<void(const vnx::exception&)>& = nullptr) { return 0; } };

class TcpServerBase { public: static const TypeCode* static_get_type_code() { return nullptr; } };
class MsgServerBase { public: static const TypeCode* static_get_type_code() { return nullptr; } };
class TcpServer : public Module {
public: TcpServer(const std::string& n) : Module(n) {}
	vnx::bool_t tcp_no_delay, tcp_keepalive, show_warnings; int32_t max_connections = 0; int32_t port = 0, connection_timeout_ms = 0, stats_interval_ms = 0, send_buffer_size = 0, receive_buffer_size = 0, listen_queue_size = 0; std::string host;
protected:
	struct state_t { int fd = -1; }; 
	virtual void on_connect(uint64_t, const std::string&) {} virtual void on_disconnect(uint64_t, const std::string&) {} virtual void on_buffer(uint64_t, void*&, size_t&) {} virtual bool on_read(uint64_t, size_t) { return true; } virtual void on_write(uint64_t) {} virtual void on_pause(uint64_t) {} virtual void on_resume(uint64_t) {}
	void disconnect(uint64_t) {} uint64_t add_client(int, const std::string&) { return 0; } uint64_t add_client(const TcpEndpoint&) { return 0; } int do_accept(int) { return 0; } void send_to(uint64_t, const void*, size_t, bool) {} bool is_connected(uint64_t) const { return false; } template<typename... A> uint64_t connect_client(const A&...) { return 0; }
	virtual void print_stats() {}
	double upload_total = 0; int num_clients = 0;
};
class MsgServer : public TcpServer {
public: MsgServer(const std::string& n) : TcpServer(n) {}
	uint32_t max_msg_size = 0; uint32_t max_write_queue = 0; vnx::bool_t compress_level;
protected:
	struct peer_t { uint64_t client = 0; uint64_t bytes_send = 0, bytes_recv = 0, bytes_send_raw = 0, bytes_recv_raw = 0; size_t write_queue_size = 0; bool is_blocked = false; bool is_connected = false; std::string address; virtual ~peer_t() {} std::vector<uint8_t> data; vnx::Memory buffer; uint32_t msg_size = 0; TypeInput in; TypeOutput out; MemoryInputStream* in_stream = nullptr; };
	virtual std::shared_ptr<peer_t> get_peer_base(uint64_t) const { return nullptr; }
	void resume(uint64_t) {} void pause(uint64_t) {}
	bool send_to(uint64_t, std::shared_ptr<const Value>) { return true; } bool send_to(std::shared_ptr<peer_t>, std::shared_ptr<const Value>) { return true; }
	virtual void on_msg(uint64_t, std::shared_ptr<const Value>) {} virtual bool on_read(uint64_t, size_t) override { return true; }
	void add_peer(uint64_t, std::shared_ptr<peer_t>) {} void remove_peer(uint64_t) {}
	std::map<uint64_t, std::shared_ptr<peer_t>> peer_base;
};
} // addons

namespace test { void expect(bool, bool); template<typename A, typename B> void expect(const A&, const B&) {} void init(const std::string&); void done(); void begin(const std::string&); }
#define VNX_TEST_BEGIN(X) {
#define VNX_TEST_END() }
} // vnx
#endif
