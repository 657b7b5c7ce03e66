// Stand-in for the limestone log store: an in-memory log with the documented session / epoch
// semantics. Every operation is a recorded event, so a crash can be placed after any of them.
#pragma once
#include <cstdint>
#include <filesystem>
#include <functional>
#include <future>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "boost/filesystem/path.hpp"

namespace limestone::api {
using epoch_t = std::int64_t;
using epoch_id_type = std::uint64_t;
using storage_id_type = std::uint64_t;
using blob_id_type = std::uint64_t;

class write_version_type {
public:
    write_version_type() = default;
    write_version_type(epoch_t major, std::uint64_t minor)
        : major_(static_cast<std::uint64_t>(major)), minor_(minor) {}
    bool operator<(const write_version_type& o) const {
        return major_ != o.major_ ? major_ < o.major_ : minor_ < o.minor_;
    }
    bool operator==(const write_version_type& o) const { return major_ == o.major_ && minor_ == o.minor_; }
    std::uint64_t get_major() const { return major_; }
    std::uint64_t get_minor() const { return minor_; }

private:
    std::uint64_t major_{0};
    std::uint64_t minor_{0};
};

class cursor {
public:
    struct rec { storage_id_type st; std::string key, val; };
    explicit cursor(std::vector<rec> r) : r_(std::move(r)) {}
    bool next() { return ++i_ < static_cast<long>(r_.size()); }
    storage_id_type storage() const { return r_[static_cast<std::size_t>(i_)].st; }
    void key(std::string& b) const { b = r_[static_cast<std::size_t>(i_)].key; }
    void value(std::string& b) const { b = r_[static_cast<std::size_t>(i_)].val; }
    std::vector<blob_id_type> large_objects() const { return {}; }

private:
    std::vector<rec> r_;
    long i_{-1};
};

class snapshot {
public:
    explicit snapshot(std::vector<cursor::rec> r) : r_(std::move(r)) {}
    std::unique_ptr<cursor> get_cursor() const { return std::make_unique<cursor>(r_); }
    std::vector<std::unique_ptr<cursor>> get_partitioned_cursors(std::size_t n) const;

private:
    std::vector<cursor::rec> r_;
};

class datastore;
class log_channel {
public:
    log_channel(datastore* ds, std::size_t id) : ds_(ds), id_(id) {}
    void begin_session();
    void end_session();
    void add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv);
    void add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv,
                   const std::vector<blob_id_type>& lobs);
    void remove_entry(storage_id_type st, std::string_view key, write_version_type wv);
    void add_storage(storage_id_type st, write_version_type wv);
    void remove_storage(storage_id_type st, write_version_type wv);

private:
    friend class datastore;
    datastore* ds_;
    std::size_t id_;
    std::uint64_t working_{UINT64_MAX}; // epoch of the open session
    std::uint64_t finished_{0};
};

class configuration {
public:
    configuration() = default;
    void set_data_location(const std::filesystem::path& p) { loc_ = p; }
    void set_recover_max_parallelism(int) {}
    std::filesystem::path loc_;
};

// the persistent medium; survives a simulated crash when the harness copies it
struct medium {
    enum kind : std::uint8_t { PUT, DEL, ADD_ST, REM_ST };
    struct entry {
        std::uint64_t session_epoch;
        kind k;
        storage_id_type st;
        std::string key, val;
        write_version_type wv;
        std::uint32_t channel;
        std::vector<blob_id_type> lobs{};
    };
    std::vector<entry> log;         // in write order
    std::uint64_t durable{0};       // recorded durable epoch
    std::uint64_t informed{0};      // epoch reported to the engine as durable
    std::string serialize() const;
    static medium parse(std::string_view b);
    // contents a recovery sees now
    std::vector<cursor::rec> contents() const;
    // drops what a crash loses
    void crash();
};

class datastore {
public:
    datastore();
    explicit datastore(const configuration& conf);
    ~datastore();
    void recover();
    void ready();
    std::unique_ptr<snapshot> get_snapshot() const;
    log_channel& create_channel();
    log_channel& create_channel(const boost::filesystem::path&) { return create_channel(); }
    epoch_id_type last_epoch() const;
    void switch_epoch(epoch_id_type e);
    void add_persistent_callback(std::function<void(epoch_id_type)> cb) { cb_ = std::move(cb); }
    void remove_persistent_callback() { cb_ = nullptr; }
    void switch_available_boundary_version(write_version_type) {}
    std::future<void> shutdown();
    void set_recover_max_parallelism(int) {}

    // harness side
    static medium* current();                       // medium of the running engine
    static void set_initial(medium m);              // contents of the next datastore created
    static void set_event_hook(std::function<void(const char*)> h);
    // every entry written, with the large objects given with it
    static void set_entry_hook(std::function<void(const medium::entry&)> h);
    static void set_closed_hook(std::function<void(const medium&)> h);   // orderly end

private:
    friend class log_channel;
    void update();
    void event(const char* what);
    std::vector<std::unique_ptr<log_channel>> ch_;
    std::uint64_t switched_{0};
    std::function<void(epoch_id_type)> cb_;
    medium m_;
    std::uint64_t boot_last_{0};
};
} // namespace limestone::api
