#pragma once
#include <bits/localefwd_mock.h>
