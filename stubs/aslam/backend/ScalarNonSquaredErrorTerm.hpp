#pragma once
namespace aslam { namespace backend {
class ScalarNonSquaredErrorTerm { public: virtual ~ScalarNonSquaredErrorTerm() {} };
} }
