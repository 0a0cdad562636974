#pragma once
#include <catch.hpp>
#undef REQUIRE
#undef REQUIRE_FALSE
#undef REQUIRE_THROWS
#define REQUIRE(...) do { bool v__ = static_cast<bool>(__VA_ARGS__); INTERNAL_CATCH_TEST( #__VA_ARGS__, Catch::ResultDisposition::Normal, v__ ); } while(0)
#define REQUIRE_FALSE(...) do { bool v__ = !static_cast<bool>(__VA_ARGS__); INTERNAL_CATCH_TEST( #__VA_ARGS__, Catch::ResultDisposition::Normal, v__ ); } while(0)
#undef CHECK
#undef CHECK_FALSE
#define CHECK REQUIRE
#define CHECK_FALSE REQUIRE_FALSE
#undef REQUIRE_NOTHROW
#define REQUIRE_NOTHROW(...) do { __VA_ARGS__; } while(0)
