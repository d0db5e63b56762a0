#pragma once
namespace expr { class Operand {}; }
