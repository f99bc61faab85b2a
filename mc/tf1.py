"""TensorFlow 1 as the neural modules expect it, on top of the compatibility API of the installed TensorFlow 2

Only what Keras 3 took away is replaced: tf.layers.dense, tf.layers.dropout and tf.nn.rnn_cell.LSTMCell, with the documented
behaviour of TensorFlow 1, and convolutions whose gradient the CPU kernels of TensorFlow lack.  Sessions are recorded, so that leaks can be seen."""
import os
import sys
import types

sessions = []


def load():
    os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
    import tensorflow.compat.v1 as tf
    sys.modules['tensorflow'] = tf
    tf.disable_eager_execution()
    tf.disable_v2_tensorshape()
    tf.disable_resource_variables()
    tf.logging.set_verbosity(tf.logging.FATAL)

    def dense(inputs, units, activation=None, use_bias=True, name=None, reuse=None, trainable=True, **kwargs):
        inputs = tf.convert_to_tensor(inputs)
        units = int(units)
        with tf.variable_scope(name, default_name='dense', reuse=reuse):
            kernel = tf.get_variable('kernel', [int(inputs.shape[-1]), units], dtype=inputs.dtype, trainable=trainable)
            result = tf.tensordot(inputs, kernel, [[len(inputs.shape) - 1], [0]])
            if use_bias:
                result = tf.nn.bias_add(result, tf.get_variable('bias', [units], dtype=inputs.dtype, trainable=trainable, initializer=tf.zeros_initializer()))
            result.set_shape(inputs.shape.as_list()[:-1] + [units])
            return activation(result) if activation is not None else result

    def dropout(inputs, rate=0.5, training=False, **kwargs):
        assert training is False
        return tf.identity(inputs)

    class LSTMCell(object):
        def __init__(self, num_units):
            self.units = int(num_units)

        @property
        def output_size(self):
            return self.units

        @property
        def state_size(self):
            return (self.units, self.units)

        def zero_state(self, batch_size, dtype):
            return (tf.zeros([batch_size, self.units], dtype), tf.zeros([batch_size, self.units], dtype))

        def get_initial_state(self, inputs=None, batch_size=None, dtype=None):
            return self.zero_state(batch_size, dtype)

        def __call__(self, inputs, state, scope=None):
            c, h = state
            with tf.variable_scope(scope or 'lstm_cell'):
                kernel = tf.get_variable('kernel', [int(inputs.shape[-1]) + self.units, 4 * self.units])
                bias = tf.get_variable('bias', [4 * self.units], initializer=tf.zeros_initializer())
            i, j, f, o = tf.split(tf.matmul(tf.concat([inputs, h], 1), kernel) + bias, 4, axis=1)
            c = tf.sigmoid(f + 1.0) * c + tf.sigmoid(i) * tf.tanh(j)
            h = tf.sigmoid(o) * tf.tanh(c)
            return h, (c, h)

    def conv2d(input, filter=None, strides=None, padding=None, dilations=(1, 1, 1, 1), **kwargs):
        """the gradient of dilated convolutions is missing on the CPU: the same kernel with zeros between its taps"""
        d = dilations[2]
        if d > 1:
            height, size, channels, count = [int(x) for x in filter.shape]
            assert height == 1 and dilations[1] == 1
            taps = tf.expand_dims(filter, 2)
            zeros = tf.zeros([1, size, d - 1, channels, count], filter.dtype)
            filter = tf.reshape(tf.concat([taps, zeros], 2), [1, size * d, channels, count])[:, :(size - 1) * d + 1]
        return tf.nn.conv2d(input, filter, strides, padding, **kwargs)

    original = tf.Session

    class Session(original):
        def __init__(self, *args, **kwargs):
            kwargs.setdefault('config', tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1, use_per_session_threads=True))
            original.__init__(self, *args, **kwargs)
            self.closings = 0
            sessions.append(self)

        def close(self):
            self.closings += 1
            original.close(self)

    class Module(types.ModuleType):
        """tf with a few names replaced"""

        def __init__(self, base, **replaced):
            types.ModuleType.__init__(self, base.__name__)
            self.__dict__['_base'] = base
            self.__dict__.update(replaced)

        def __getattr__(self, name):
            return getattr(self._base, name)

    nn = Module(tf.nn, rnn_cell=types.SimpleNamespace(LSTMCell=LSTMCell), conv2d=conv2d)
    shim = Module(tf, layers=types.SimpleNamespace(dense=dense, dropout=dropout), nn=nn, Session=Session)
    sys.modules['tensorflow'] = shim
    from mc import fake
    fake.bpe()
    return shim
