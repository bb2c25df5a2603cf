#include <fst/fstlib.h>
#include <unicode/locid.h>
#include <unicode/unistr.h>
#include <unicode/ustream.h>
#include <spdlog/spdlog.h>
#include <json/json.h>
#include <bits/stdc++.h>
