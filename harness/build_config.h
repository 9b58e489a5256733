// Stand-in for the file cmake generates (same switches as /opt/vp/build.sh uses).
#ifndef MC_HARNESS_BUILD_CONFIG
#define MC_HARNESS_BUILD_CONFIG
#define HUMOTO_COMPILER_SUPPORTS_FUNC_
#define HUMOTO_COMPILER_SUPPORTS_FUNCTION_
#ifndef HUMOTO_DEFAULT_CONFIG_PREFIX
#define HUMOTO_DEFAULT_CONFIG_PREFIX "/usr/local/share/humoto/config/"
#endif
#ifndef MC_NO_LOGGER_THREAD
#define HUMOTO_USE_THREADS_FOR_LOGGING
#endif
#define HUMOTO_GIT_COMMIT_INFO "harness"
#define HUMOTO_BRIDGE_config_msgpack
#define HUMOTO_MODULE_pepper_mpc
#define HUMOTO_MODULE_wpg04
#endif
