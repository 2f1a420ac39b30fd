"""Reference definitions of operator values. This file is never run: it is analysed by the same abstract interpreter as
onnx_tool's value_infer methods, and the resulting value terms are compared. Several definitions of one operator
(Name, Name_1, ...) are alternatives; a value matching any of them is accepted."""
import math

import numpy


def V(t):
    return t.get_numpy()


class Abs:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.abs(V(t[0])))


class Neg:
    def value_infer(self, t, o):
        o[0].update_tensor(-V(t[0]))


class Ceil:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.ceil(V(t[0])))


class Floor:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.floor(V(t[0])))


class Round:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.round(V(t[0])))


class Sign:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.sign(V(t[0])))


class Sqrt:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.sqrt(V(t[0])))


class Exp:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.exp(V(t[0])))


class Log:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.log(V(t[0])))


class Sin:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.sin(V(t[0])))


class Cos:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.cos(V(t[0])))


class Atan:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.arctan(V(t[0])))


class Tanh:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.tanh(V(t[0])))


class Sigmoid:
    def value_infer(self, t, o):
        o[0].update_tensor(1 / (1 + numpy.exp(-V(t[0]))))


class Sigmoid_1:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.exp(V(t[0])) / (1 + numpy.exp(V(t[0]))))


class Softplus:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.log(1 + numpy.exp(V(t[0]))))


class Reciprocal:
    def value_infer(self, t, o):
        o[0].update_tensor(1 / V(t[0]))


class Relu:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.maximum(V(t[0]), 0))


class Relu_1:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.where(V(t[0]) > 0, V(t[0]), 0))


class Relu_2:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.where(V(t[0]) < 0, 0, V(t[0])))


class Relu6:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.clip(V(t[0]), 0, 6))


class Elu:
    def value_infer(self, t, o):
        x = V(t[0])
        o[0].update_tensor(numpy.where(x < 0, self.alpha * (numpy.exp(x) - 1), x))


class Elu_1:
    def value_infer(self, t, o):
        x = V(t[0])
        o[0].update_tensor(numpy.where(x > 0, x, self.alpha * (numpy.exp(x) - 1)))


class LeakyRelu:
    def value_infer(self, t, o):
        x = V(t[0])
        o[0].update_tensor(numpy.where(x < 0, self.alpha * x, x))


class LeakyRelu_1:
    def value_infer(self, t, o):
        x = V(t[0])
        o[0].update_tensor(numpy.where(x > 0, x, self.alpha * x))


class LeakyRelu_2:
    def value_infer(self, t, o):
        x = V(t[0])
        y = numpy.zeros_like(x)
        for i in numpy.ndindex(x.shape):
            y[i] = x[i] if x[i] >= 0 else x[i] * self.alpha
        o[0].update_tensor(y)


class LeakyRelu_3:
    def value_infer(self, t, o):
        x = V(t[0])
        y = numpy.zeros_like(x)
        for i in numpy.ndindex(x.shape):
            y[i] = x[i] if x[i] > 0 else x[i] * self.alpha
        o[0].update_tensor(y)


class HardSigmoid:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.clip(self.alpha * V(t[0]) + self.beta, 0, 1))


class HardSwish:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) * numpy.clip(V(t[0]) * (1 / 6) + 0.5, 0, 1))


class HardSwish_1:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) * numpy.clip(V(t[0]) + 3, 0, 6) / 6)


class Softplus_1:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) + numpy.log(1 + numpy.exp(-V(t[0]))))


class Softmax_2:
    def value_infer(self, t, o):
        x = V(t[0])
        e = numpy.exp(x - numpy.max(x))
        o[0].update_tensor(e / numpy.sum(e, axis=self.axis, keepdims=True))


class Unsqueeze_1:
    def value_infer(self, t, o):
        x = V(t[0])
        for a in self.AXES:
            x = numpy.expand_dims(x, a)
        o[0].update_tensor(x)


class ArgMax_2:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.argmax(V(t[0]), axis=self.axis, keepdims=bool(self.keepdims)))


class ArgMax_3:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.argmax(V(t[0]), axis=self.axis, keepdims=bool(self.keepdims)).astype(numpy.int64))


class Not:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.logical_not(V(t[0])))


class Not_1:
    def value_infer(self, t, o):
        o[0].update_tensor(~V(t[0]))


class Identity:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]))


class Dropout(Identity):
    pass


class Erf:
    def value_infer(self, t, o):
        x = V(t[0])
        y = numpy.zeros_like(x)
        for i in numpy.ndindex(t[0].shape):
            y[i] = math.erf(x[i])
        o[0].update_tensor(y)


class Erf_1:
    def value_infer(self, t, o):
        x = V(t[0])
        y = numpy.zeros_like(x)
        for i in numpy.ndindex(x.shape):
            y[i] = math.erf(x[i])
        o[0].update_tensor(y)


class Softmax:
    def value_infer(self, t, o):
        x = V(t[0])
        o[0].update_tensor(numpy.exp(x) / numpy.sum(numpy.exp(x), axis=self.axis, keepdims=True))


class Softmax_1:
    def value_infer(self, t, o):
        x = V(t[0])
        e = numpy.exp(x - numpy.max(x, axis=self.axis, keepdims=True))
        o[0].update_tensor(e / numpy.sum(e, axis=self.axis, keepdims=True))


class Add:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) + V(t[1]))


class Sub:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) - V(t[1]))


class Mul:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) * V(t[1]))


class Div:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) / V(t[1]))


class Div_1:
    def value_infer(self, t, o):
        q = V(t[0]) // V(t[1])
        o[0].update_tensor(q + ((q < 0) & (q * V(t[1]) != V(t[0]))))


class Pow:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.power(V(t[0]), V(t[1])))


class And:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.logical_and(V(t[0]), V(t[1])))


class And_1:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) & V(t[1]))


class Or:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.logical_or(V(t[0]), V(t[1])))


class Or_1:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) | V(t[1]))


class Xor:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.logical_xor(V(t[0]), V(t[1])))


class Xor_1:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) ^ V(t[1]))


class Less:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) < V(t[1]))


class LessOrEqual:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) <= V(t[1]))


class Greater:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) > V(t[1]))


class GreaterOrEqual:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) >= V(t[1]))


class Equal:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) == V(t[1]))


class Min:
    def value_infer(self, t, o):
        y = V(t[0])
        for x in t[1:]:
            y = numpy.minimum(y, V(x))
        o[0].update_tensor(y)


class Max:
    def value_infer(self, t, o):
        y = V(t[0])
        for x in t[1:]:
            y = numpy.maximum(y, V(x))
        o[0].update_tensor(y)


class Sum:
    def value_infer(self, t, o):
        y = V(t[0])
        for x in t[1:]:
            y = y + V(x)
        o[0].update_tensor(y)


class Where:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.where(V(t[0]), V(t[1]), V(t[2])))


class Clip:
    def value_infer(self, t, o):
        lo = V(t[1]) if len(t) > 1 and t[1].name != '' else None
        hi = V(t[2]) if len(t) > 2 and t[2].name != '' else None
        o[0].update_tensor(numpy.clip(V(t[0]), lo, hi))


class MatMul:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.matmul(V(t[0]), V(t[1])))


class Cast:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]).astype(self.DT))


class Transpose:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.transpose(V(t[0]), self.perm))


class Concat:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.concatenate([V(x) for x in t], axis=self.axis))


class Gather:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.take(V(t[0]), V(t[1]), axis=self.axis))


class GatherElements:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.take_along_axis(V(t[0]), V(t[1]), axis=self.axis))


class GatherElements_1:
    def value_infer(self, t, o):
        x = V(t[0])
        y = numpy.zeros_like(V(t[1]), dtype=x.dtype)
        for i in numpy.ndindex(y.shape):
            j = list(i)
            j[self.axis] = V(t[1])[i]
            y[i] = x[tuple(j)]
        o[0].update_tensor(y)


class Tile:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.tile(V(t[0]), V(t[1])))


class Range:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.arange(V(t[0]), V(t[1]), V(t[2])))


class Range_1:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.arange(V(t[0]), V(t[1]), V(t[2]), dtype=t[0].dtype))


class Range_2:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.arange(V(t[0]), V(t[1]), V(t[2]), dtype=V(t[0]).dtype))


class Expand:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) * numpy.ones(V(t[1])))


class Expand_1:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) * numpy.ones(V(t[1]), dtype=t[0].dtype))


class Expand_2:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]) * numpy.ones(V(t[1]), dtype=V(t[0]).dtype))


class Compress:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.compress(V(t[1]), V(t[0]), axis=self.axis))


class CumSum:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.cumsum(V(t[0]), axis=self.AXIS))


class CumSum_1:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.cumsum(V(t[0]), axis=self.AXIS, dtype=V(t[0]).dtype))


class NonZero:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.array(numpy.nonzero(V(t[0])), dtype=numpy.int64))


class NonZero_1:  # an empty result is replaced so that shapes stay usable
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.array(numpy.nonzero(numpy.ones_like(V(t[0]))), dtype=numpy.int64))


class ArgMax:
    def value_infer(self, t, o):
        y = numpy.argmax(V(t[0]), axis=self.axis)
        if self.keepdims:
            y = numpy.expand_dims(y, self.axis)
        o[0].update_tensor(y)


class ArgMax_1:
    def value_infer(self, t, o):
        y = numpy.argmax(V(t[0]), axis=self.axis)
        if self.keepdims:
            y = numpy.expand_dims(y, self.axis)
        o[0].update_tensor(y.astype(numpy.int64))


class GlobalAveragePool:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.mean(V(t[0]), axis=tuple(range(2, len(t[0].get_shape()))), keepdims=True))


class BatchNormalization:
    def value_infer(self, t, o):
        x = V(t[0])
        y = numpy.zeros_like(x)
        for i in numpy.ndindex(y.shape):
            c = i[1]
            y[i] = (x[i] - V(t[3])[c]) * V(t[1])[c] / math.sqrt(V(t[4])[c] + self.epsilon) + V(t[2])[c]
        o[0].update_tensor(y)


class BatchNormalization_1:
    def value_infer(self, t, o):
        x = V(t[0])
        y = numpy.zeros_like(x)
        for i in numpy.ndindex(x.shape):
            c = i[1]
            y[i] = (x[i] - V(t[3])[c]) * V(t[1])[c] / numpy.sqrt(V(t[4])[c] + self.epsilon) + V(t[2])[c]
        o[0].update_tensor(y)


class Constant:
    def value_infer(self, t, o):
        o[0].update_tensor(self.value)


class Trilu:
    def value_infer(self, t, o):
        k = V(t[1]) if len(t) > 1 else 0
        o[0].update_tensor(numpy.triu(V(t[0]), k) if self.upper else numpy.tril(V(t[0]), k))


class Trilu_1:
    def value_infer(self, t, o):
        k = V(t[1]) if len(t) > 1 else numpy.array(0).astype(numpy.int64)
        o[0].update_tensor(numpy.triu(V(t[0]), k) if self.upper else numpy.tril(V(t[0]), k))


class Gemm:
    def value_infer(self, t, o):
        a = numpy.swapaxes(V(t[0]), -1, -2) if self.transA else V(t[0])
        b = numpy.swapaxes(V(t[1]), -1, -2) if self.transB else V(t[1])
        y = self.alpha * numpy.matmul(a, b)
        if len(t) > 2:
            y = y + self.beta * V(t[2])
        o[0].update_tensor(y)


class Gemm_1:
    def value_infer(self, t, o):
        a = V(t[0]).T if self.transA else V(t[0])
        b = V(t[1]).T if self.transB else V(t[1])
        y = self.alpha * numpy.matmul(a, b)
        if len(t) > 2:
            y = y + self.beta * V(t[2])
        o[0].update_tensor(y)


class MatMulInteger:
    def value_infer(self, t, o):
        a = V(t[0]).astype(numpy.int32)
        b = V(t[1]).astype(numpy.int32)
        if len(t) > 2:
            a = a - V(t[2]).astype(numpy.int32)
        if len(t) > 3:
            b = b - V(t[3]).astype(numpy.int32)
        o[0].update_tensor(numpy.matmul(a, b))


class MatMulInteger_1:
    def value_infer(self, t, o):
        a = V(t[0]).astype(numpy.int32)
        b = V(t[1]).astype(numpy.int32)
        if len(t) > 2:
            a = a - V(t[2]).astype(numpy.int32).reshape(-1, 1)
        if len(t) > 3:
            b = b - V(t[3]).astype(numpy.int32)
        o[0].update_tensor(numpy.matmul(a, b))


class ReduceSum:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.sum(V(t[0]), axis=self.AXES, keepdims=self.KEEP))


class ReduceMean:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.mean(V(t[0]), axis=self.AXES, keepdims=self.KEEP))


class ReduceMax:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.max(V(t[0]), axis=self.AXES, keepdims=self.KEEP))


class ReduceMin:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.min(V(t[0]), axis=self.AXES, keepdims=self.KEEP))


class ReduceProd:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.prod(V(t[0]), axis=self.AXES, keepdims=self.KEEP))


class ReduceL2:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.sqrt(numpy.sum(V(t[0]) * V(t[0]), axis=self.AXES, keepdims=self.KEEP)))


class Squeeze:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.squeeze(V(t[0]), axis=self.AXES))


class Unsqueeze:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.expand_dims(V(t[0]), axis=self.AXES))


class Reshape:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]).reshape(self.SHAPE))


class Flatten:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]).reshape(self.SHAPE))


class Flatten_1:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0]).reshape(self.SHAPE2))


class Shape:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.array(self.SHAPE, dtype=numpy.int64))


class Slice:
    def value_infer(self, t, o):
        o[0].update_tensor(V(t[0])[self.INDEX])


class Split:
    def value_infer(self, t, o):
        y = numpy.split(V(t[0]), self.POS, self.axis)
        for i in range(len(o)):
            o[i].update_tensor(y[i])


class Pad:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.pad(V(t[0]), self.WIDTH, mode='constant', constant_values=self.FILL))


class Pad_1:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.pad(V(t[0]), self.WIDTH, mode='constant', constant_values=V(t[2])))


class ConstantOfShape:
    def value_infer(self, t, o):
        if self.value is None:
            o[0].update_tensor(numpy.zeros(V(t[0]), dtype=numpy.float32))
            return
        o[0].update_tensor(numpy.full(V(t[0]), self.value[0], dtype=self.value.dtype))


class ConstantOfShape_1:
    def value_infer(self, t, o):
        if self.value is None:
            o[0].update_tensor(numpy.full(V(t[0]), 0, dtype=numpy.float32))
            return
        y = numpy.zeros(V(t[0]), dtype=self.value.dtype)
        y.fill(self.value[0])
        o[0].update_tensor(y)


class Mod:
    def value_infer(self, t, o):
        o[0].update_tensor(numpy.fmod(V(t[0]), V(t[1])) if self.fmod else numpy.mod(V(t[0]), V(t[1])))


class QLinearMatMul:
    def value_infer(self, t, o):
        a = (V(t[0]).astype(numpy.float32) - V(t[2])) * V(t[1])
        b = (V(t[3]).astype(numpy.float32) - V(t[5])) * V(t[4])
        y = numpy.round(numpy.matmul(a, b) / V(t[6])) + V(t[7])
        i = numpy.iinfo(V(t[7]).dtype)
        o[0].update_tensor(numpy.clip(y, i.min, i.max).astype(V(t[7]).dtype))


class Conv:  # the extents of the loops are compared by the window formula of the shape, only their number matters here
    def value_infer(self, t, o):
        y = o[0].get_numpy()
        for i in numpy.ndindex((t[0].shape[0], t[1].shape[0], t[0].shape[2], t[0].shape[3])):
            acc = y[i]
            if len(t) > 2:
                acc = V(t[2])[i[1]]
            for j in numpy.ndindex((t[1].shape[1], t[1].shape[2], t[1].shape[3])):
                h = i[2] * self.strides[0] + j[1] * self.dilations[0] - self.pads[0]
                w = i[3] * self.strides[1] + j[2] * self.dilations[1] - self.pads[1]
                acc += V(t[0])[i[0], j[0], h, w] * V(t[1])[i[1], j[0], j[1], j[2]]
            y[i] = acc
        o[0].update_tensor(y)


class OneHot:
    def value_infer(self, t, o):
        i = V(t[0])
        n = 5
        rank = len(i.shape)
        ls = i.shape[0:self.axis]
        rs = i.shape[self.axis:rank]
        hot = numpy.reshape(numpy.arange(n), (1,) * len(ls) + (n,) + (1,) * len(rs)) == numpy.reshape(numpy.mod(i, n), ls + (1,) + rs)
        o[0].update_tensor(numpy.where(hot, V(t[2])[1], V(t[2])[0]))


class ScatterND:
    def value_infer(self, t, o):
        d, i, u = V(t[0]), V(t[1]), V(t[2])
        y = numpy.copy(d)
        for n in numpy.ndindex(i.shape[:-1]):
            k = tuple(i[n])
            if self.reduction == b'add':
                y[k] = y[k] + u[n]
            elif self.reduction == b'mul':
                y[k] = y[k] * u[n]
            elif self.reduction == b'max':
                y[k] = numpy.maximum(y[k], u[n])
            elif self.reduction == b'min':
                y[k] = numpy.minimum(y[k], u[n])
            else:
                y[k] = u[n]
        o[0].update_tensor(y)


class GatherND:
    def value_infer(self, t, o):
        d, i = V(t[0]), V(t[1])
        b = self.batch_dims
        n = 1
        for k in i.shape[:b]:
            n *= k
        flat = i.reshape(n, -1, i.shape[-1])
        data = d.reshape((n,) + d.shape[b:])
        y = []
        for k in range(flat.shape[0]):
            for j in range(flat.shape[1]):
                y.append(data[(k, *tuple(flat[k][j]))])
        o[0].update_tensor(numpy.asarray(y, dtype=d.dtype).reshape(list(i.shape[:-1]) + list(d.shape[b + i.shape[-1]:])))
