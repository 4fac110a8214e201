// The few classes of JUCE that the generated processor uses.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
struct AudioChannelSet { static AudioChannelSet stereo() { return AudioChannelSet(); } };
struct BusesProperties {
    BusesProperties withInput(const char *, AudioChannelSet, bool) { return *this; }
    BusesProperties withOutput(const char *, AudioChannelSet, bool) { return *this; }
};
struct AudioParameterFloat {
    std::string id, name;
    float lo, hi, value;
    AudioParameterFloat(const char *i, const char *n, float a, float b, float v) : id(i), name(n), lo(a), hi(b), value(v) {}
    operator float() const { return value; }
    AudioParameterFloat &operator=(float v) { value = v < lo ? lo : (v > hi ? hi : v); return *this; }
};
class AudioProcessor {
public:
    std::vector<std::unique_ptr<AudioParameterFloat> > params;
    int nin = 2, nout = 2;
    AudioProcessor(BusesProperties) {}
    void addParameter(AudioParameterFloat *p) { params.emplace_back(p); }
    int getTotalNumInputChannels() const { return nin; }
    int getTotalNumOutputChannels() const { return nout; }
    AudioParameterFloat &par(const std::string &id) {
        for (auto &p : params) if (p->id == id) return *p;
        fprintf(stderr, "Assertion: no parameter %s\n", id.c_str());
        abort();
    }
};
class AudioSampleBuffer {
public:
    std::vector<std::vector<float> > data;
    AudioSampleBuffer(int c, int n) : data(c, std::vector<float>(n)) {}
    int getNumSamples() const { return (int) data[0].size(); }
    int getNumChannels() const { return (int) data.size(); }
    float *getWritePointer(int c) { return data.at(c).data(); }
    void applyGain(int c, int start, int n, float g) { for (int i = 0; i < n; i++) data.at(c).at(start + i) *= g; }
    void applyGainRamp(int c, int start, int n, float a, float b) {
        float inc = (b - a)/n;
        for (int i = 0; i < n; i++) data.at(c).at(start + i) *= a + i*inc;
    }
};
