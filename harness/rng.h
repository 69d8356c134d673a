// the random generator of the code under test, under control: every value it draws is a choice of the model checker.
// included in front of the sources that draw random numbers; without a driver it is the real generator.
#pragma once
#include <random>
#include <torch/torch.h>
namespace mc_rng
{
// the value drawn, in [0,1), or a negative number to leave it to the real generator
using Driver = double (*)();
extern Driver driver;
class generator
{
	std::mt19937 real;

  public:
	using result_type = std::mt19937::result_type;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xffffffffu; }
	static constexpr result_type default_seed = std::mt19937::default_seed;
	generator() = default;
	explicit generator(result_type s) : real(s) {}
	void seed(result_type s = default_seed) { real.seed(s); }
	void discard(unsigned long long n) { real.discard(n); }
	result_type operator()()
	{
		if (driver)
		{
			double x = driver();
			if (x >= 0)
				return result_type(x * 4294967296.);
		}
		return result_type(real());
	}
};
} // namespace mc_rng
namespace std
{
using mc_generator = mc_rng::generator;
}
#define mt19937 mc_generator
