// Big endian numbers for the binary protocol
#pragma once
template <typename Out> struct BigEndian {
	template <typename T> static std::array<char, sizeof(T)> prepareNumber(T value) {
		auto r = LittleEndianNumberFormat<Out>::prepareNumber(value);
		std::reverse(r.begin(), r.end());
		return r;
	}
	template <typename T> static void writeNumber(T value, SerialisationFlags::Flags flags, Out& output) {
		SerialisationFlags::typeWithFlags(flags, [&] (auto typed) {
			typed = value;
			auto bytes = prepareNumber(typed);
			output += std::string_view(bytes.data(), bytes.size());
		});
	}
	template <typename T> static std::tuple<bool, T, int> readNumber(SerialisationFlags::Flags flags, std::span<const char> data) {
		return SerialisationFlags::typeWithFlags(flags, [&] (auto typed) -> std::tuple<bool, T, int> {
			if (data.size() < sizeof(typed)) return {false, 0, 0};
			std::array<char, sizeof(typed)> bytes;
			memcpy(bytes.data(), data.data(), bytes.size());
			std::reverse(bytes.begin(), bytes.end());
			memcpy(&typed, bytes.data(), sizeof(typed));
			return {true, T(typed), int(sizeof(typed))};
		});
	}
};
