// Minimal stand-in for spdlog used by the verification builds only: logging is not part of any checked
// property, and the real header costs 10+ s per translation unit.  It offers both the spdlog 0.x names that
// src/broker_core.cpp uses and the 1.x names used elsewhere.  Arguments are evaluated, nothing is formatted.
// If a change to the broker needs something that is missing here the build falls back to the real header.
#ifndef VERIF_SHIM_SPDLOG_H
#define VERIF_SHIM_SPDLOG_H
#include <chrono>
#include <cstddef>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace spdlog
{
	namespace level
	{
		enum level_enum : int { trace = 0, debug = 1, info = 2, warn = 3, err = 4, critical = 5, off = 6, n_levels };
	}
	class spdlog_ex : public std::runtime_error
	{
	public:
		using std::runtime_error::runtime_error;
	};
	namespace sinks
	{
		class sink
		{
		public:
			virtual ~sink() = default;
		};
		class null_sink_st : public sink
		{
		};
		class null_sink_mt : public sink
		{
		};
		class rotating_file_sink_mt : public sink
		{
		public:
			rotating_file_sink_mt(const std::string &, std::size_t, std::size_t)
			{
			}
		};
	} // namespace sinks
	using sink_ptr = std::shared_ptr<sinks::sink>;
	class logger
	{
		std::string name_;
		level::level_enum level_ = level::debug;

	public:
		template <typename... A> explicit logger(const std::string &name, const A &...) : name_(name)
		{
		}
		virtual ~logger() = default;
		template <typename... A> void log(level::level_enum, const A &...)
		{
		}
		template <typename... A> void trace(const A &...)
		{
		}
		template <typename... A> void debug(const A &...)
		{
		}
		template <typename... A> void info(const A &...)
		{
		}
		template <typename... A> void warn(const A &...)
		{
		}
		template <typename... A> void error(const A &...)
		{
		}
		template <typename... A> void critical(const A &...)
		{
		}
		bool should_log(level::level_enum l) const
		{
			return l >= level_;
		}
		void set_level(level::level_enum l)
		{
			level_ = l;
		}
		level::level_enum level() const
		{
			return level_;
		}
		const std::string &name() const
		{
			return name_;
		}
		void flush()
		{
		}
		template <typename... A> void set_pattern(const A &...)
		{
		}
		void flush_on(level::level_enum)
		{
		}
	};
	enum class async_overflow_policy { block_retry, discard_log_msg };
	template <typename... A> void set_async_mode(const A &...)
	{
	}
	template <typename... A> std::shared_ptr<logger> create(const std::string &name, const A &...)
	{
		return std::make_shared<logger>(name);
	}
	template <typename... A> void drop(const A &...)
	{
	}
	inline void drop_all()
	{
	}
	inline std::shared_ptr<logger> get(const std::string &)
	{
		return nullptr;
	}
} // namespace spdlog
#endif
