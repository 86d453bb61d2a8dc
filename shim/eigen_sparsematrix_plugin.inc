template <typename It>
void setFromSortedTriplets(const It& b, const It& e) { setFromTriplets(b, e); }
