// Second translation unit of one program per check: the headers can be included
// and used in several places of a program.
#include <iostream>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/bytes.hpp>
#include <nytl/callback.hpp>
#include <nytl/clone.hpp>
#include <nytl/connection.hpp>
#include <nytl/flags.hpp>
#include <nytl/functionTraits.hpp>
#include <nytl/fwd.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/math.hpp>
#include <nytl/nonCopyable.hpp>
#include <nytl/quaternion.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/recursiveCallback.hpp>
#include <nytl/scope.hpp>
#include <nytl/simplex.hpp>
#include <nytl/span.hpp>
#include <nytl/stringParam.hpp>
#include <nytl/tmpUtil.hpp>
#include <nytl/transform.hpp>
#include <nytl/utf.hpp>
#include <nytl/vec.hpp>
#include <nytl/vec2.hpp>
#include <nytl/vec3.hpp>
#include <nytl/vecOps.hpp>
