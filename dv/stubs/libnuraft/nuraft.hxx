// Declarations of the NuRaft names that headers mention, so that code which only passes through those headers can be parsed and compiled
// without the library (it is not installed here). Nothing of it is executed by the code under contract.
#ifndef DV_STUB_NURAFT
#define DV_STUB_NURAFT
#include <atomic>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace nuraft {
    using ulong = uint64_t;
    using int32 = int32_t;
    template<class T> using ptr = std::shared_ptr<T>;
    template<class T, class... A> ptr<T> cs_new(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
    class buffer {
      public:
        static ptr<buffer> alloc(size_t);
        static ptr<buffer> copy(const buffer&);
        size_t size() const;
        std::byte* data_begin() const;
    };
    class snapshot {
      public:
        static ptr<snapshot> deserialize(buffer&);
        ptr<buffer> serialize();
        uint64_t get_last_log_idx() const;
    };
    class cluster_config {};
    template<class T, class E = ptr<std::exception>> class async_result {
      public:
        using handler_type = std::function<void(T&, E&)>;
    };
    class cb_func {
      public:
        enum Type { BecomeFollower, BecomeLeader };
        enum ReturnCode { Ok, ReturnNull };
        struct Param {};
        using func_type = std::function<ReturnCode(Type, Param*)>;
    };
    struct raft_params {};
    class state_machine {
      public:
        virtual ~state_machine() = default;
        virtual ptr<buffer> commit(ulong, buffer&) { return nullptr; }
        virtual void commit_config(ulong, ptr<cluster_config>&) {}
        virtual bool apply_snapshot(snapshot&) = 0;
        virtual ptr<snapshot> last_snapshot() = 0;
        virtual ulong last_commit_index() = 0;
        virtual void create_snapshot(snapshot&, async_result<bool>::handler_type&) = 0;
        virtual int read_logical_snp_obj(snapshot&, void*&, ulong, ptr<buffer>&, bool&) { return 0; }
        virtual void save_logical_snp_obj(snapshot&, ulong&, buffer&, bool, bool) {}
        virtual void free_user_snp_ctx(void*&) {}
    };
}
#endif
