#pragma once
#include <memory>
template <class T> class scoped_ptr : public std::unique_ptr<T> { public: using std::unique_ptr<T>::unique_ptr; };
